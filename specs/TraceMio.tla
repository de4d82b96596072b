------------------------------ MODULE TraceMio ------------------------------
(***************************************************************************)
(* Validation of recorded evaluations of the MIO models.                   *)
(* ev "field":  [kind, below, above, pole, h, valid, lo, hi, scale, given, *)
(*   elems, den, out, obs]: kind "internal", "external", "primary"; terms  *)
(*   <<n, m, s, p, c, d>> - the coefficient of the season/universal time   *)
(*   harmonics s, p; h radius of the ionosphere; radii in a/2.             *)
(*   an element: [p point (Fields!Frame), r, side (float steps from r),    *)
(*   q quarter of the year, counted from 2001, sun sub-solar direction in  *)
(*   the dipole frame, f index: F10.7 (None - not given)].                 *)
(* ev "fourier": [smin, pmin, coeff (rows of <<c, d>>), at (24ths of the   *)
(*   period), obs] sums in 10^-6                                           *)
(* ev "side": [side, obs] which of the two models gives the value          *)
(* ev "wolf": [f, ratio, obs] 10^5 times the ratio to the unscaled field;  *)
(*           ratio is 10^5 times the Wolf ratio of the model               *)
(* ev "sheet": radial component at the current sheet, relative jumps 10^-6 *)
(* ev "sun": the default Sun model is the position of the Sun              *)
(***************************************************************************)
EXTENDS Fields, Tracer

VARIABLES l, bad, known, counts

Clauses == {"field", "below", "above", "boundary", "f107", "nan", "sun", "season", "default",
            "fourier", "side", "wolf", "sheet", "local"}
None == -99
NaNIndex == -55
NaNTime == -77

\* the longitude of the sub-solar point in quarters and the phase of the
\* universal time, MUT = 12 h - longitude
Quarter(w) == IF w[2] = 0 THEN (IF w[1] > 0 THEN 0 ELSE 2) ELSE IF w[2] > 0 THEN 1 ELSE 3
Value(t, e) ==
  LET mut == IF t[4] = 0 THEN 0 ELSE t[4] * (2 - Quarter(e.sun))
      phase == (t[3] * e.q + mut) % 4 IN
  CASE phase = 0 -> t[5] [] phase = 1 -> t[6] [] phase = 2 -> -t[5] [] OTHER -> -t[6]

\* 16 times the radial dependency
Radial(n, ext, r) ==
  IF ext THEN IF n = 1 THEN 16 ELSE 8 * r
  ELSE CASE r = 1 -> (IF n = 1 THEN 128 ELSE 256)
         [] r = 2 -> 16
         [] OTHER -> (IF n = 1 THEN 2 ELSE 1)

IsBelow(o, e) == CASE o.kind = "internal" -> FALSE
                   [] o.kind = "external" -> TRUE
                   [] OTHER -> e.r < o.h \/ (e.r = o.h /\ e.side <= 0)
Undefined(o, e) == e.q = NaNTime \/ e.q < o.valid[1] \/ e.q > o.valid[2] \/ e.f = NaNIndex

\* times den
Field(o, i) ==
  LET e == o.elems[i]
      ext == IsBelow(o, e)
      terms == IF ext THEN o.below ELSE o.above
      mat == DipoleMatrix(o.pole)
      dd == DipoleDen(o.pole)
      u == MatVec(Transposed(mat), e.p.u)
      d == e.p.rho * dd
      picked == {k \in DOMAIN terms : (o.lo = None \/ terms[k][1] >= o.lo)
                                      /\ (o.hi = None \/ terms[k][1] <= o.hi)}
      total == TLCEval(SumVec(
        [k \in DOMAIN terms |->
           LET t == terms[k] IN
           Mul3(Radial(t[1], ext, e.r), TermField(<<t[1], t[2], Value(t, e)>>, ext, u, d))],
        picked))
      f == (IF e.f = None THEN 1 ELSE 1 + e.f) * (IF o.scale = None THEN 1 ELSE o.scale)
      v == Mul3(f, MatVec(mat, total)) IN
  IF o.out = 2 THEN v ELSE MatVec(Frame(e.p), v)

JudgeField(o) ==
  LET want == TLCEval([i \in DOMAIN o.elems |->
                         IF Undefined(o, o.elems[i]) THEN <<>> ELSE TLCEval(Field(o, i))])
      wrong == {i \in DOMAIN want : o.obs.field[i] # want[i]}
      undef == {i \in DOMAIN want : want[i] = <<>>}
      terms == o.below \o o.above
      Class(i) ==
        LET e == o.elems[i] IN
        IF want[i] = <<>> THEN {"nan"}
        ELSE {"field"}
          \cup (IF o.kind # "primary" THEN {}
                ELSE {IF IsBelow(o, e) THEN "below" ELSE "above"}
                     \cup (IF e.r = o.h THEN {"boundary"} ELSE {}))
          \cup (IF e.f = None THEN {} ELSE {"f107"})
          \cup (IF \E k \in DOMAIN terms : terms[k][4] # 0 THEN {"sun"} ELSE {})
          \cup (IF \E k \in DOMAIN terms : terms[k][3] # 0 THEN {"season"} ELSE {})
          \cup (IF o.given[2] = "default" THEN {"default"} ELSE {})
          \cup (IF o.out = 1 THEN {"local"} ELSE {})
  IN << UNION {Class(i) : i \in wrong}, UNION {Class(i) : i \in DOMAIN want} >>

\* 10^6 cos(15 k)
Cos24(k) == LET j == k % 24
                h == IF j > 12 THEN 24 - j ELSE j
                q == IF h > 6 THEN 12 - h ELSE h
                v == <<1000000, 965926, 866025, 707107, 500000, 258819, 0>>[q + 1] IN
            IF h > 6 THEN -v ELSE v
Sin24(k) == Cos24(k - 6)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
JudgeFourier(o) ==
  LET ns == Len(o.coeff)
      np == Len(o.coeff[1])
      At(i) == Sum([s \in 1..ns |-> Sum([p \in 1..np |->
                 LET phase == (o.smin + s - 1) * o.at[i][1] + (o.pmin + p - 1) * o.at[i][2] IN
                 o.coeff[s][p][1] * Cos24(phase) + o.coeff[s][p][2] * Sin24(phase)], np)], ns)
      tol == 5 + Sum([s \in 1..ns |-> Sum([p \in 1..np |->
               Abs(o.coeff[s][p][1]) + Abs(o.coeff[s][p][2])], np)], ns)
      ok == \A i \in DOMAIN o.at : Abs(o.obs.sums[i] - At(i)) <= tol
  IN <<IF ok THEN {} ELSE {"fourier"}, {"fourier"}>>

Judge(o) ==
  CASE o.ev = "field" -> JudgeField(o)
    [] o.ev = "fourier" -> JudgeFourier(o)
    [] o.ev = "side" ->
         <<IF o.obs = [below |-> IF o.obs.order <= 0 THEN 1 ELSE 0,
                       above |-> IF o.obs.order > 0 THEN 1 ELSE 0, order |-> o.obs.order]
           THEN {} ELSE {"side"}, {"side"}>>
    [] o.ev = "wolf" -> <<IF \A i \in DOMAIN o.f : o.obs.ratio[i] = 100000 + o.ratio * o.f[i]
                          THEN {} ELSE {"wolf"}, {"wolf"}>>
    [] o.ev = "sheet" -> <<IF o.obs.normal = 0 /\ o.obs.tangential # 0 THEN {} ELSE {"sheet"},
                           {"sheet"}>>
    [] OTHER -> <<IF o.obs.same = 1 THEN {} ELSE {"default"}, {"default"}>>

INSTANCE TraceMachine
=============================================================================
