------------------------------ MODULE TraceSun ------------------------------
(***************************************************************************)
(* Validation of recorded sub-solar points and magnetic local times.       *)
(* ev "walk": [at (quarters of minutes since the first), phase (quarters   *)
(*   of minutes since midnight of the first), old (before 1900),           *)
(*   obs [lat, lon, dlat, dlon, range]] sub-solar points in 10^-4 deg and their   *)
(*   differences from the independent solar ephemeris                      *)
(* ev "mlt": [q (degrees), obs [mlt, mut (by the pole of the IGRF model    *)
(*   and the sub-solar point, or None), range]] times in 10^-4 hours       *)
(* ev "mut": [pole, sun, hor, obs] rational directions of the pole and the *)
(*   sub-solar point, direction of the magnetic universal time             *)
(* ev "default": the default Sun model is the position of the Sun          *)
(* ev "range": [inside, obs (0 numbers, 1 NaN, 2 other)]                   *)
(***************************************************************************)
EXTENDS Fields, Tracer

VARIABLES l, bad, known, counts
Clauses == {"rate", "declination", "noon", "ephemeris", "hour", "universal", "within", "mut", "default",
            "inside", "outside"}
None == -1
Turn == 3600000
DayLen == 5760
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Wrap(x, period) == LET w == x % period IN IF 2 * w > period THEN w - period ELSE w

JudgeWalk(o) ==
  LET n == Len(o.at)
      s == o.obs
      Dt(i) == o.at[i + 1] - o.at[i]
      \* 360 degrees per day is 625 units per quarter of a minute
      rate == \A i \in 1..(n - 1) :
        Abs(Wrap(s.lon[i + 1] - s.lon[i] + 625 * (Dt(i) % DayLen), Turn)) <= 5 + (Dt(i) \div 4)
      decl == /\ \A i \in 1..(n - 1) : Abs(s.lat[i + 1] - s.lat[i]) <= 7 + 3 * (Dt(i) \div 4)
              /\ \A i \in 1..n : Abs(s.lat[i]) <= 235000
      noon == \A i \in 1..n : Abs(Wrap(s.lon[i] + 625 * ((o.phase + o.at[i]) % DayLen) - Turn \div 2, Turn)) <= 43000
      eph == \A i \in 1..n : Abs(s.dlat[i]) <= (IF o.old = 1 THEN 170 ELSE 110)
                             /\ Abs(s.dlon[i]) <= (IF o.old = 1 THEN 270 ELSE 180) IN
  <<(IF rate THEN {} ELSE {"rate"}) \cup (IF decl THEN {} ELSE {"declination"})
    \cup (IF s.range = 1 THEN {} ELSE {"within"})
    \cup (IF noon THEN {} ELSE {"noon"}) \cup (IF eph THEN {} ELSE {"ephemeris"}),
    {"rate", "declination", "noon", "ephemeris"}>>

\* q in units of 1/8 degree: 10^4/15/8 = 250/3
JudgeMlt(o) ==
  LET s == o.obs
      hour == \A i \in DOMAIN o.q :
        Abs(Wrap(s.mlt[i] - s.mlt[1] - ((o.q[i] - o.q[1]) * 250) \div 3, 240000)) <= 2
      mut == \A i \in DOMAIN o.q : Abs(Wrap(s.mlt[i] - s.mut - (o.q[i] * 250) \div 3, 240000)) <= 4 IN
  <<(IF hour THEN {} ELSE {"hour"}) \cup (IF s.mut = None \/ mut THEN {} ELSE {"universal"})
    \cup (IF s.range = 1 THEN {} ELSE {"within"}),
    {"hour", "within"} \cup (IF s.mut = None THEN {} ELSE {"universal"})>>

\* the sub-solar point in the dipole frame; the horizontal direction
JudgeMut(o) ==
  LET v == MatVec(Transposed(DipoleMatrix(o.pole)), o.sun)
      big == Max2(Max2(Abs(v[1]), Abs(v[2])), 1)
      ok == /\ Abs(v[1] * o.obs.dir[2] - v[2] * o.obs.dir[1]) <= 3 * big
            /\ v[1] * o.obs.dir[1] + v[2] * o.obs.dir[2] > 0
            /\ o.obs.range = 1 IN
  <<IF ok THEN {} ELSE {"mut"}, {"mut"}>>

Judge(o) ==
  CASE o.ev = "walk" -> JudgeWalk(o)
    [] o.ev = "mlt" -> JudgeMlt(o)
    [] o.ev = "mut" -> JudgeMut(o)
    [] o.ev = "default" -> <<IF o.obs.same = 1 THEN {} ELSE {"default"}, {"default"}>>
    [] OTHER -> LET c == IF o.inside = 1 THEN "inside" ELSE "outside" IN
                <<IF o.obs.what = 1 - o.inside THEN {} ELSE {c}, {c}>>

INSTANCE TraceMachine
=============================================================================
