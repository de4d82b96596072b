------------------------------ MODULE Contracts -----------------------------
(***************************************************************************)
(* Parameters of the exported functions, the faults applicable to them and *)
(* the required end of the call.                                           *)
(*   P(name, type, shapes): shapes are the faults of the shape or of the   *)
(*   range refused for this parameter in addition to those of the type     *)
(*   the first `least` parameters of a function are mandatory              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

P(name, type, shapes) == [name |-> name, type |-> type, shapes |-> shapes]

\* not convertible to an array of numbers
NoArray == {"text", "object", "refuser", "liar", "ragged", "complex", "cplxarr", "textarr", "objarr", "datetime", "record",
            "iterator", "loop", "dictionary"}
\* not convertible to a C integer
NoInt == {"none", "text", "float", "huge", "hugest", "wrapped", "object", "refuser", "liar", "complex", "list", "iterator"}
NoFloat == {"none", "text", "object", "refuser", "liar", "complex", "list", "iterator", "dictionary"}
\* Python level number: arrays and None may be accepted, nothing else
NoNumber == {"text", "object", "refuser", "complex", "iterator", "dictionary"}
NoFile == {"none", "object", "refuser", "liar", "missing", "folder", "void", "garbage", "words", "nul", "long", "complex"}
NoQdFile == {"none", "object", "missing", "folder", "void", "garbage", "words", "qd-short", "qd-header", "nul", "list", "complex"}
NoCoefs == {"none", "text", "object", "refuser", "number", "list", "dictionary"}
NoSets == {"none", "text", "object", "number", "list", "empty", "pair", "numbers", "dictionary", "iterator"}

TypeFaults(type) ==
  CASE type = "array" -> NoArray
    [] type = "int" -> NoInt
    [] type = "coord" -> NoInt \cup {"negative", "far"}
    [] type = "float" -> NoFloat
    [] type = "number" -> NoNumber
    [] type = "file" -> NoFile
    [] type = "qdfile" -> NoQdFile
    [] type = "coefs" -> NoCoefs
    [] type = "sets" -> NoSets
    [] type = "flag" -> {"refuser"}
    [] type = "any" -> {}

\* outcome not determined, the process must survive it
FreeFaults(type) ==
  CASE type = "array" -> {"none", "deepest", "empty"}
    [] type = "float" -> {"nan", "zero", "minus", "infinite"}
    [] type = "number" -> {"nan", "zero", "minus", "none", "list"}
    [] type = "int" -> {"negative"}
    [] type = "any" -> {"none", "text", "object", "refuser", "complex"}
    [] type = "flag" -> {"none", "text", "object", "list"}
    [] type = "file" -> {"bytes", "list", "dictionary"}
    [] OTHER -> {}

Vector == {"scalar", "last1", "last2", "last4", "vanish"}
Coef == {"scalar", "last1", "last4", "vanish", "fewer"}
SetsItems == {"item0text", "item0none", "item0scalar", "item0clash", "item0cplxarr", "item0refuser", "item0first", "item1text", "item1scalar", "item1clash",
              "item1first", "item1fewer", "item1deeper", "item1refuser", "item2text", "item2first", "item2fewer", "item2last1", "item2refuser",
              "item2negdegree", "item2mindegree", "item2orderabove", "item2orderbelow", "item2minorder", "item2bigdegree",
              "item3text", "item3none", "item3negative", "item3far", "item3huge", "item3wrapped", "item3refuser"}
SetItems == {"item0text", "item0scalar", "item0clash", "item0cplxarr", "item0first", "item0fewer", "item0deeper", "item0last1", "item0refuser",
             "item1text", "item1first", "item1fewer", "item1last1", "item1refuser",
             "item1negdegree", "item1mindegree", "item1orderabove", "item1orderbelow", "item1minorder", "item1bigdegree",
             "item2text", "item2none", "item2float", "item2hugest", "item3text", "item3refuser",
             "item4text", "item4none", "item5complex", "item5refuser"}

Evals == <<P("coord_type_in", "coord", {}), P("coord_type_out", "coord", {}), P("mode", "coord", {}), P("is_internal", "flag", {})>>
Scales == <<P("scale_potential", "float", {}), P("scale_gradient", "array", {"first", "deeper", "deepest", "last4"})>>
Pole == <<P("lat_ngp", "number", {}), P("lon_ngp", "number", {})>>
Options == <<P("input_coordinate_system", "coord", {}), P("output_coordinate_system", "coord", {}), P("scale", "array", {"deepest"})>>
ModelEval == <<P("time", "array", {"clash"}), P("location", "array", Vector \cup {"clash"})>> \o Options
Degrees == <<P("max_degree", "number", {}), P("min_degree", "number", {})>>
Blocks == {"clash", "scalar", "vanish"}
Sun == <<P("time_mjd2k", "array", {"clash"}), P("lat", "array", {"clash"}), P("lon", "array", {"clash"}),
         P("rad", "array", {"clash"}), P("dtt", "array", {"clash"})>>
Line == {"clash", "deeper"}
QdEval == <<P("gclat", "array", Line), P("gclon", "array", Line), P("gcrad", "array", Line), P("time", "array", Line), P("fname", "qdfile", {})>>
Indices == {"scalar", "first", "fewer", "last1", "last4", "negdegree", "orderabove", "orderbelow"}
File == <<P("path", "file", {})>>
F(least, params) == [least |-> least, params |-> params]

Functions == [
  bisect |-> F(2, <<P("v", "array", {"scalar", "deeper"}), P("x", "array", {}), P("side", "coord", {})>>),
  interp |-> F(3, <<P("time", "array", {}), P("time0", "array", {"scalar", "first", "deeper", "vanish"}),
                    P("coeff0", "array", {"scalar", "last1", "last4", "vanish"}), P("kind", "coord", {}), P("extrapolate", "flag", {})>>),
  fourier2d |-> F(5, <<P("time1", "array", {"clash"}), P("time2", "array", {"clash"}), P("coeff", "array", {"scalar", "last1", "last4", "vanish"}),
                       P("min_degree1", "int", {}), P("min_degree2", "int", {}), P("scale1", "float", {}), P("scale2", "float", {})>>),
  legendre |-> F(2, <<P("latitude", "array", {}), P("degree", "int", {"negative"})>>),
  loncossin |-> F(2, <<P("longitude", "array", {}), P("degree", "int", {"negative"}), P("fast_alg", "int", {})>>),
  relradpow |-> F(2, <<P("radius", "array", {}), P("degree", "int", {"negative"}), P("reference_radius", "float", {"zero", "minus"}), P("is_internal", "flag", {})>>),
  spharpot |-> F(5, <<P("radius", "array", {"clash"}), P("coef", "array", Coef), P("leg_p", "array", Blocks), P("rpp", "array", Blocks),
                      P("lcs", "array", Blocks \cup {"last1", "last4"}), P("degree", "int", {})>>),
  sphargrd |-> F(6, <<P("latitude", "array", {"clash"}), P("coef", "array", Coef), P("leg_p", "array", Blocks), P("leg_dp", "array", Blocks),
                      P("rrp", "array", Blocks), P("lcs", "array", Blocks \cup {"last1", "last4"}), P("is_internal", "flag", {}), P("degree", "int", {})>>),
  sheval |-> F(2, <<P("arr_x", "array", Vector), P("coef", "array", Coef)>> \o Evals \o <<P("degree", "int", {})>> \o Scales),
  shevaltemp |-> F(3, <<P("arr_t", "array", {"clash"}), P("arr_x", "array", Vector \cup {"clash"}), P("coef_set_list", "sets", SetsItems \cup {"many", "lonely"})>> \o Evals \o Scales),
  sheval2dfs |-> F(4, <<P("arr_t1", "array", {"clash"}), P("arr_t2", "array", {"clash"}), P("arr_x", "array", Vector \cup {"clash"}),
                        P("coef_set", "sets", SetItems)>> \o Evals \o Scales),
  convert |-> F(1, <<P("arr_in", "array", Vector), P("coord_type_in", "coord", {}), P("coord_type_out", "coord", {})>>),
  vrot_sph2cart |-> F(3, <<P("arr_in", "array", Vector \cup {"clash"}), P("arr_lat", "array", {"clash", "prefix"}), P("arr_lon", "array", {"clash", "prefix"})>>),
  vrot_cart2sph |-> F(3, <<P("arr_in", "array", Vector \cup {"clash"}), P("arr_lat", "array", {"clash", "prefix"}), P("arr_lon", "array", {"clash", "prefix"})>>),
  vrot_sph2geod |-> F(2, <<P("arr_in", "array", Vector \cup {"clash"}), P("arr_dlat", "array", {"clash", "prefix"})>>),
  sunpos |-> F(3, Sun), sunpos_original |-> F(3, Sun),
  eval_qdlatlon |-> F(4, QdEval), eval_qdlatlon_with_base_vectors |-> F(4, QdEval),
  eval_mlt |-> F(2, <<P("qdlon", "array", Line), P("time", "array", Line)>>),
  eval_subsol |-> F(1, <<P("time", "array", {"deeper"})>>),
  mjd2000_to_decimal_year |-> F(1, <<P("time_mjd2k", "array", {})>>),
  mjd2000_to_year_fraction |-> F(1, <<P("time_mjd2k", "array", {})>>),
  decimal_year_to_mjd2000 |-> F(1, <<P("time_mjd2k", "array", {})>>),
  vnorm |-> F(1, <<P("arr", "array", {})>>),
  vincdecnorm |-> F(1, <<P("arr", "array", Vector)>>),
  vrotate |-> F(5, <<P("arr", "array", Vector \cup {"clash"}), P("coord_in", "array", {"clash", "scalar", "last1", "vanish"}), P("coord_out", "any", {}),
                     P("coord_type_in", "coord", {}), P("coord_type_out", "coord", {})>>),
  convert_to_dipole |-> F(3, <<P("coords", "array", Vector)>> \o Pole \o <<P("coord_type_in", "coord", {})>>),
  vrot_from_dipole |-> F(5, <<P("vectors", "array", Vector \cup {"clash"})>> \o Pole \o <<P("lat_dipole", "array", {"clash"}), P("lon_dipole", "array", {"clash"}),
                     P("lat_out", "array", {"clash"}), P("lon_out", "array", {"clash"}), P("coord_type_out", "coord", {})>>),
  get_dipole_rotation_matrix |-> F(2, <<P("latitude", "number", {}), P("longitude", "number", {})>>),
  mjd2000_to_magnetic_universal_time |-> F(3, <<P("mjd2000", "array", {})>> \o Pole),
  sheval_dipole |-> F(4, <<P("arr_in", "array", Vector), P("coef", "array", Coef)>> \o Pole \o
                     <<P("coord_type_in", "coord", {}), P("coord_type_out", "coord", {}), P("mode", "coord", {})>>),
  eval_constant |-> F(2, ModelEval), eval_series |-> F(2, ModelEval), eval_composed |-> F(2, ModelEval), eval_combined |-> F(2, ModelEval),
  eval_dipole |-> F(2, ModelEval), eval_sum |-> F(2, ModelEval),
  eval_mio |-> F(3, ModelEval), eval_primary |-> F(3, ModelEval),
  call_constant |-> F(1, <<P("time", "array", {})>> \o Degrees), call_series |-> F(1, <<P("time", "array", {})>> \o Degrees),
  call_composed |-> F(1, <<P("time", "array", {})>> \o Degrees), call_combined |-> F(1, <<P("time", "array", {})>> \o Degrees),
  call_mio |-> F(2, <<P("time", "array", {"clash"}), P("mut", "array", {"clash"})>> \o Degrees),
  trace_field_line |-> F(3, <<P("model", "coefs", {}), P("time", "array", {"clash"}), P("point", "array", Vector \cup {"deeper"}),
                     P("input_coordinate_system", "coord", {}), P("output_coordinate_system", "coord", {}), P("trace_options", "any", {})>>),
  new_constant |-> F(2, <<P("indices", "array", Indices), P("coefficients", "array", {"scalar", "first", "deeper"})>>),
  new_series |-> F(3, <<P("indices", "array", Indices), P("coefficients", "array", {"scalar", "first", "deeper", "fewer", "last1", "last4"}),
                        P("times", "array", {"scalar", "first", "deeper"}), P("spline_order", "coord", {})>>),
  new_mio |-> F(3, <<P("indices", "array", Indices), P("coefficients", "array", {"scalar", "first", "deeper", "fewer", "last1", "last4", "wider"}),
                     P("ps_extent", "sets", {})>>),
  new_composed |-> F(0, <<P("one", "coefs", {}), P("two", "coefs", {})>>),
  new_combined |-> F(0, <<P("one", "coefs", {}), P("two", "coefs", {})>>),
  new_model |-> F(1, <<P("coefficients", "coefs", {})>>),
  load_coeff_shc |-> F(1, File), load_model_shc |-> F(0, File), load_model_shc_combined |-> F(0, File),
  load_model_igrf |-> F(1, File), load_model_wmm |-> F(1, File),
  load_model_swarm_mio_internal |-> F(1, File), load_model_swarm_mio_external |-> F(1, File),
  load_model_swarm_mma_2c_internal |-> F(0, File), load_model_swarm_mma_2f_geo_external |-> F(0, File)]

Names == DOMAIN Functions
Params(f) == Functions[f].params
ParamOf(f, name) == LET k == CHOOSE k \in DOMAIN Params(f) : Params(f)[k].name = name IN Params(f)[k]
Refused(f, name, fault) == LET p == ParamOf(f, name) IN fault \in TypeFaults(p.type) \cup p.shapes
Faults(p) == TypeFaults(p.type) \cup p.shapes \cup FreeFaults(p.type)
\* forms of the call: how the arguments are passed
BadForms(f) == IF Functions[f].least = 0 THEN {} ELSE {"none"}
=============================================================================
