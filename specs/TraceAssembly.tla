--------------------------- MODULE TraceAssembly ---------------------------
(***************************************************************************)
(* Validation of recorded evaluations of composed models.                  *)
(* A line: [model, opts, times, points, den, out, obs]                     *)
(*  model   leaf [kind, ext, pole, terms, start, end]; terms <<n, m, c, s>>*)
(*            with the value c + s k in the time k; pole is <<>> or the    *)
(*            record of Fields!DipoleMatrix; kind "mio" is scaled by       *)
(*            (1 + f107)                                                   *)
(*          or composition [kind |-> "comp", parts] of                     *)
(*            [model, scale, lo, hi, f107] (None - not fixed)              *)
(*  opts    options of the call [lo, hi, f107, scale]                      *)
(*  times   time of each point (NaNTime - NaN)                             *)
(*  points  directions (see Fields!Frame)                                  *)
(*  den[i]  common denominator of the field in the i-th point              *)
(*  out     2 - Cartesian, 1 - local frame                                 *)
(* Observations: field[i] the vector times the denominator, <<>> is NaN    *)
(* and <<0>> not a multiple; validity, params, repeated (1 if the          *)
(* second evaluation gives the same), general (deviation from the sum of   *)
(* the separate evaluations in general points of all frames)               *)
(***************************************************************************)
EXTENDS Fields, Tracer

VARIABLES l, bad, known, counts

Clauses == {"sum", "scaled", "own_options", "call_options", "nested", "empty", "nan",
            "finite", "validity", "params", "repeated", "general", "local"}
None == -99
NaNTime == -77
NaNIndex == -55
Inf == 1000

RECURSIVE Leaves(_)
Leaves(m) == IF m.kind # "comp" THEN {m}
             ELSE UNION {Leaves(m.parts[i].model) : i \in DOMAIN m.parts}
MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
Start(m) == MaxOf({-Inf} \cup {x.start : x \in Leaves(m)})
End(m) == MinOf({Inf} \cup {x.end : x \in Leaves(m)})

Or(own, given) == IF own = None THEN given ELSE own
Merge(part, opts) == [lo |-> Or(part.lo, opts.lo), hi |-> Or(part.hi, opts.hi),
                      f107 |-> Or(part.f107, opts.f107)]

\* undefined value of any of the parts
RECURSIVE Undefined(_, _, _)
Undefined(m, opts, k) ==
  IF m.kind = "comp"
  THEN k = NaNTime \/ \E i \in DOMAIN m.parts : Undefined(m.parts[i].model, Merge(m.parts[i], opts), k)
  ELSE \/ k = NaNTime \/ k < m.start \/ k > m.end
       \/ m.kind = "mio" /\ opts.f107 = NaNIndex

Selected(term, opts) == (opts.lo = None \/ term[1] >= opts.lo) /\ (opts.hi = None \/ term[1] <= opts.hi)

\* den times the field
LeafField(m, opts, k, p, den) ==
  LET plain == m.pole = <<>>
      mat == DipoleMatrix(m.pole[1])
      dd == IF plain THEN 1 ELSE DipoleDen(m.pole[1])
      u == IF plain THEN p.u ELSE MatVec(Transposed(mat), p.u)
      d == p.rho * dd
      picked == {i \in DOMAIN m.terms : Selected(m.terms[i], opts)}
      total == TLCEval(SumVec(
        [i \in DOMAIN m.terms |->
           LET t == m.terms[i] IN TermField(<<t[1], t[2], t[3] + t[4] * k>>, m.ext = 1, u, d)],
        picked))
      back == IF plain THEN total ELSE MatVec(mat, total)
      f == IF m.kind = "mio" /\ opts.f107 # None THEN 1 + opts.f107 ELSE 1
  IN Mul3(f * (den \div (d * d * d * dd)), back)

RECURSIVE Field(_, _, _, _, _)
Field(m, opts, k, p, den) ==
  IF m.kind = "comp"
  THEN SumVec([i \in DOMAIN m.parts |->
                 Mul3(m.parts[i].scale,
                      Field(m.parts[i].model, Merge(m.parts[i], opts), k, p, den))],
              DOMAIN m.parts)
  ELSE LeafField(m, opts, k, p, den)

\* projection to the local axes, the denominator grows by FrameDen
Projected(o, i, v) == IF o.out = 2 THEN v ELSE MatVec(Frame(o.points[i]), v)

Expected(o, i) ==
  IF Undefined(o.model, o.opts, o.times[i]) THEN <<>>
  ELSE LET v == TLCEval(Field(o.model, o.opts, o.times[i], o.points[i], o.den[i])) IN
       Projected(o, i, Mul3(IF o.opts.scale = None THEN 1 ELSE o.opts.scale, v))

Judge(o) ==
  LET obs == o.obs
      want == TLCEval([i \in DOMAIN o.points |-> Expected(o, i)])
      undef == {i \in DOMAIN want : want[i] = <<>>}
      wrong == {i \in DOMAIN want : obs.field[i] # want[i]}
      parts == o.model.parts
      class ==
        (IF \E i \in DOMAIN parts : parts[i].scale # 1 THEN {"scaled"} ELSE {})
        \cup (IF \E i \in DOMAIN parts : \E c \in {parts[i].lo, parts[i].hi, parts[i].f107} : c # None
              THEN {"own_options"} ELSE {})
        \cup (IF \E c \in {o.opts.lo, o.opts.hi, o.opts.f107, o.opts.scale} : c # None
              THEN {"call_options"} ELSE {})
        \cup (IF \E i \in DOMAIN parts : parts[i].model.kind = "comp" THEN {"nested"} ELSE {})
        \cup (IF parts = <<>> THEN {"empty"} ELSE {})
        \cup (IF o.out = 1 THEN {"local"} ELSE {})
      values == (IF class = {} THEN {"sum"} ELSE class)
      s == Start(o.model)
      e == End(o.model)
      validity == IF s <= e THEN obs.validity = <<s, e>>
                  ELSE obs.validity[2] <= -Inf \/ obs.validity[1] > obs.validity[2]
                       \/ obs.validity[1] >= Inf
      params == {"time", "location"}
        \cup (IF \E x \in Leaves(o.model) : x.kind = "mio" THEN {"f107", "subsolar_point"} ELSE {})
  IN << (IF wrong \ undef = {} THEN {} ELSE values)
        \cup (IF wrong \cap undef = {} THEN {} ELSE {"nan"})
        \cup (IF \A i \in DOMAIN want \ undef : obs.field[i] # <<>> THEN {} ELSE {"finite"})
        \cup (IF validity THEN {} ELSE {"validity"})
        \cup (IF {obs.params[i] : i \in DOMAIN obs.params} = params THEN {} ELSE {"params"})
        \cup (IF obs.repeated = 1 THEN {} ELSE {"repeated"})
        \cup (IF obs.general \in {0, -1} THEN {} ELSE {"general"}),
        (IF undef # DOMAIN want THEN values \cup {"finite"} ELSE {})
        \cup (IF undef # {} THEN {"nan"} ELSE {})
        \cup {"validity", "params", "repeated"}
        \cup (IF obs.general # -1 THEN {"general"} ELSE {}) >>

INSTANCE TraceMachine
=============================================================================
