---------------------------- MODULE TraceFrames ----------------------------
(***************************************************************************)
(* Validation of recorded coordinate conversions and vector rotations.     *)
(* Lines by ev:                                                            *)
(*  walk    [path, la, lo, v, obs.steps]  components of the vector after   *)
(*          each rotation of a walk of FrameWalk, times the denominators   *)
(*  tilt    [v, obs.angle, obs.moved]  change (10^-9) by a rotation around *)
(*          the east by a small angle (10^-10)                             *)
(*  poles   [axis, obs.rows, obs.angle, obs.moved]  rotation matrix (10^-8) *)
(*          and its change (10^-10) by a small step (10^-10) of the pole   *)
(*          in latitude (axis 0) or longitude (1)                          *)
(*  vector  [v, obs.norm2, obs.parts, obs.ranges]  square of the norm; the *)
(*          components recomposed from inclination, declination and norm   *)
(*  point   [u, rho, r, obs.dir, obs.r, obs.ranges]  converted point: the  *)
(*          direction recomposed from the result times rho, and the radius *)
(*  geodetic [obs.off, obs.ranges]  offsets of the foot point: <<from the  *)
(*          ellipsoid, of the normal, from the meridian>> in micrometers   *)
(*          and nanoradians                                                *)
(*  round   [obs.off, near]  offsets of positions along a sequence of      *)
(*          conversions from the initial position in micrometers; near - 1 *)
(*          next to the polar axis, where only centimeters are required    *)
(*  matrix, dpoint, dvector: conversions to the dipole frame of the pole q *)
(*  field   [what, obs.vectors, obs.potentials]  vectors of one place in   *)
(*          all frames, recomposed to Cartesian components                 *)
(***************************************************************************)
EXTENDS Frames, Tracer, Fixed

VARIABLES l, bad, known, counts

Kinds == {"tilt", "poles", "vector", "point", "geodetic", "round", "near", "matrix", "dpoint", "dvector"}
Whats == {"sheval", "dipole", "shevaltemp", "sheval2dfs", "model", "dipole_model", "mio", "composed"}
Clauses == Kinds \cup Whats \cup {"walk", "polar", "dateline", "range", "potential"}

Max(s) == CHOOSE x \in s : \A y \in s : x >= y
Micro == 60            \* micrometers / nanoradians of double precision numbers
Polar == 300000        \* micrometers next to the axis
Close(v, w, k) == \A i \in 1..3 : Abs(v[i] - w[i]) <= k

FrameOf(o, t) == [t |-> t, la |-> IF t = 2 THEN <<0, 1, 1>> ELSE o.la[t + 1]]
Walked(o) == \A i \in DOMAIN o.path :
  o.obs.steps[i] = Rotated(FrameOf(o, o.path[1]), FrameOf(o, o.path[i]), o.lo, o.v)

IsPolar(o) == \E t \in {o.path[i] : i \in DOMAIN o.path} : t # 2 /\ o.la[t + 1][2] = 0
\* latitudes and longitudes in millionths of degree
InRange(rs) == \A i \in DOMAIN rs : Abs(rs[i][1]) <= 90000000 /\ Abs(rs[i][2]) <= 180000000

Failed(o) ==
  LET b == o.obs
      m == DipoleMatrix(o.q) IN
  CASE o.ev = "walk" -> ~Walked(o)
    \* first order of the angle, half of its square is left
    [] o.ev = "tilt" ->
         LET a == b.angle
             rest == 5 + ((Abs(a) \div 100000 + 1) * (Abs(a) \div 100000 + 1)) \div 2
             Want(x) == (x * a) \div 10 IN
         ~(/\ Abs(b.moved[1] + Want(o.v[3])) <= rest
           /\ b.moved[2] = 0
           /\ Abs(b.moved[3] - Want(o.v[1])) <= rest)
    [] o.ev = "poles" ->
         LET d == b.angle
             m1 == b.rows
             first(a) == (Abs(a) \div 100000 + 1) * (Abs(a) \div 100000 + 1)
             rest == 5 + first(d[1]) + first(d[2])
             Along(r) == << Mul(m1[r][3], d[1]), 0, -Mul(m1[r][1], d[1]) >>
             Around(r, j) == CASE r = 1 -> -Mul(m1[2][j], d[2])
                               [] r = 2 -> Mul(m1[1][j], d[2])
                               [] OTHER -> 0 IN
         ~(\A r, j \in 1..3 : Abs(b.moved[r][j] - Along(r)[j] - Around(r, j)) <= rest)
    [] o.ev = "vector" -> ~(b.norm2 = Dot3(o.v, o.v) /\ b.parts = o.v)
    [] o.ev = "point" -> ~(b.dir = o.u /\ b.r = o.r)
    [] o.ev = "geodetic" -> ~(\A i \in DOMAIN b.off : Abs(b.off[i]) <= Micro)
    [] o.ev = "round" -> ~(\A i \in DOMAIN b.off : b.off[i] <= IF o.near = 1 THEN Polar ELSE Micro)
    [] o.ev = "matrix" -> b.rows # m
    [] o.ev = "dpoint" -> ~(b.dir = MatVec(Transposed(m), o.u) /\ b.r = o.r)
    [] o.ev = "dvector" ->
         b.out # FromCart([t |-> o.out, la |-> o.la2], o.lo2,
                          MatVec(m, ToCart([t |-> 1, la |-> o.la], o.lo, o.v)))
    [] OTHER -> ~(\A i, j \in DOMAIN b.vectors : Close(b.vectors[i], b.vectors[j], 2))

Names(o) ==
  CASE o.ev = "walk" -> {"walk"} \cup (IF IsPolar(o) THEN {"polar"} ELSE {})
                        \cup (IF o.lo[1] = 0 /\ o.lo[2] < 0 THEN {"dateline"} ELSE {})
    [] o.ev = "round" -> IF o.near = 1 THEN {"near"} ELSE {"round"}
    [] o.ev = "field" -> {o.what}
    [] OTHER -> {o.ev}

Judge(o) ==
  LET ranges == IF "ranges" \in DOMAIN o.obs THEN o.obs.ranges ELSE <<>>
      pots == IF "potentials" \in DOMAIN o.obs THEN o.obs.potentials ELSE <<>> IN
  << (IF Failed(o) THEN Names(o) ELSE {})
     \cup (IF InRange(ranges) THEN {} ELSE {"range"})
     \cup (IF \A i, j \in DOMAIN pots : Abs(pots[i] - pots[j]) <= 2 THEN {} ELSE {"potential"}),
     Names(o) \cup (IF ranges # <<>> THEN {"range"} ELSE {})
     \cup (IF pots # <<>> THEN {"potential"} ELSE {}) >>

INSTANCE TraceMachine
=============================================================================
