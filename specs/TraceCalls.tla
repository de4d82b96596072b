----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Validation of executed calls.                                           *)
(* ev "call": func, faults: <<parameter, fault>> pairs, form of the call,  *)
(*   obs.out: "value", "refused" or "disorder" (error of the interpreter), *)
(*   obs.digest of the result, obs.touched: arguments changed,             *)
(*   fresh: digest of the same call in a process without any history       *)
(* ev "repeat": resources gained by obs.count additional same calls:       *)
(*   blocks and bytes of memory, handles of files, references of the       *)
(*   arguments and of shared objects                                       *)
(***************************************************************************)
EXTENDS Tracer, Contracts, Integers, SequencesExt

VARIABLES l, bad, known, counts
Clauses == {"type", "shape", "range", "file", "item", "form", "several", "free", "valid", "intact", "orderly", "inputs",
            "blocks", "bytes", "handles", "references"}

\* functions taking any further named parameters
Lax == {f \in Names : f \in {"eval_constant", "eval_series", "eval_composed", "eval_combined", "eval_dipole", "eval_sum", "eval_mio", "eval_primary",
         "call_constant", "call_series", "call_composed", "call_combined", "call_mio", "new_constant", "new_series", "new_mio",
         "load_coeff_shc", "load_model_shc", "load_model_shc_combined"}}
\* functions of any number of parameters
Open == {"new_composed", "new_combined", "load_model_shc", "load_model_shc_combined", "load_model_swarm_mma_2c_internal",
         "load_model_swarm_mma_2f_geo_external"}
RefusedForm(f, form) ==
  \/ form = "none" /\ Functions[f].least > 0
  \/ form = "excess"
  \/ form = "unknown" /\ f \notin Lax
  \/ form = "twice" /\ f \notin Open
FreeForm(f, form) == \/ form = "unknown" /\ f \in Lax
                     \/ form = "none" /\ Functions[f].least = 0
                     \/ form = "twice" /\ f \in Open

Ranges == {"negative", "far", "huge", "hugest", "wrapped", "zero", "minus"}
Shapes == {"scalar", "last1", "last2", "last4", "vanish", "clash", "prefix", "deeper", "fewer", "first", "wider", "deepest", "ragged", "loop"}
Files == {"missing", "folder", "void", "garbage", "words", "nul", "long", "qd-short", "qd-header"}
Group(p, x) == IF p.type = "sets" THEN "item" ELSE IF x \in Files THEN "file" ELSE IF x \in Shapes THEN "shape"
               ELSE IF x \in Ranges THEN "range" ELSE "type"

JudgeCall(o) ==
  LET given == {<<x[1], x[2]>> : x \in Range(o.faults)}
      \* parameters of the same wrong shape fit each other
      clashes == {x \in given : x[2] = "clash"}
      wrong == {x \in given : Refused(o.func, x[1], x[2]) /\ (x[2] = "clash" => Cardinality(clashes) = 1)}
      refused == o.obs.out = "refused"
      must == wrong # {} \/ RefusedForm(o.func, o.form)
      clean == given = {} /\ ~RefusedForm(o.func, o.form) /\ ~FreeForm(o.func, o.form)
      group == IF Cardinality(given) > 1 THEN {"several"} ELSE IF wrong = {} THEN {} ELSE {Group(ParamOf(o.func, x[1]), x[2]) : x \in wrong}
      form == IF RefusedForm(o.func, o.form) THEN {"form"} ELSE {}
      used == IF must THEN (IF wrong = {} THEN {} ELSE group) \cup form ELSE IF clean THEN {"valid", "intact"} ELSE {"free"}
      failed == IF must THEN (IF refused THEN {} ELSE used)
                ELSE IF clean THEN (IF o.obs.out # "value" THEN {"valid"} ELSE IF o.obs.digest # o.fresh THEN {"intact"} ELSE {})
                ELSE {}
      disorder == IF o.obs.out \in {"value", "refused"} THEN {} ELSE {"orderly"}
      touched == IF o.obs.touched = 0 THEN {} ELSE {"inputs"}
  IN <<failed \cup disorder \cup touched, used \cup {"orderly", "inputs"}>>

JudgeRepeat(o) ==
  LET r == o.obs
      few == r.count \div 2
      failed == (IF r.blocks < few THEN {} ELSE {"blocks"}) \cup (IF r.bytes < 48 * few THEN {} ELSE {"bytes"})
                \cup (IF r.handles < few THEN {} ELSE {"handles"}) \cup (IF r.refs < few /\ r.shared < few THEN {} ELSE {"references"})
  IN <<failed, {"blocks", "bytes", "handles", "references"}>>

Judge(o) == IF o.ev = "call" THEN JudgeCall(o) ELSE IF o.ev = "repeat" THEN JudgeRepeat(o) ELSE <<{"crash"}, {}>>
INSTANCE TraceMachine
=============================================================================
