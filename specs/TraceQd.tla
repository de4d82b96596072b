------------------------------ MODULE TraceQd ------------------------------
(***************************************************************************)
(* Validation of recorded quasi-dipole evaluations with synthetic files.   *)
(* The coefficients of a file map the geodetic unit vector linearly:       *)
(* at each epoch  V = Sum over l of rho^l (M_l u + o_l),  rho = Re/(Re+h). *)
(* ev "call": [file [epochs, mats (epoch, l) -> <<M, o>>], base, points    *)
(*   ([lat <<s, c, h>>, lon <<s, c, h>>, rho 1/2/4 inverse ratio, t in     *)
(*   1/1461 years since 2000]), obs ([nan, q direction, e, n axes at q     *)
(*   (10^-4), f (base vectors times the scales of the ellipsoid and area,  *)
(*   10^-3)]), same: coordinates with and without base vectors identical   *)
(* ev "refused": [why, obs] 0 exception, 1 NaN, 2 other values             *)
(***************************************************************************)
EXTENDS Tracer

VARIABLES l, bad, known, counts
Clauses == {"position", "base", "area", "inside", "node", "before", "after", "single", "nan", "shared",
            "altitude", "epoch", "same", "refused", "shape"}
NaNTime == -1000000000
Year == 1461
Day == 5

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b

\* matrix of the epoch and altitude, 10^-3 units, rows <<M_i1, M_i2, M_i3, o_i>>
Matrix(file, t, inv) ==
  LET eps == [k \in DOMAIN file.epochs |-> (file.epochs[k] - 2000) * Year]
      n == Len(eps)
      tc == IF t < eps[1] THEN eps[1] ELSE IF t > eps[n] THEN eps[n] ELSE t
      low == IF n = 1 THEN 1 ELSE CHOOSE k \in 1..(n - 1) : eps[k] <= tc /\ tc <= eps[k + 1]
      len == IF n = 1 THEN Year ELSE eps[low + 1] - eps[low]
      w == tc - eps[low]
      At(k, i, j) == LET m == file.mats[k] IN
        IF Len(m) = 1 THEN 4 * m[1][i][j] ELSE 4 * m[1][i][j] + (4 \div inv) * m[2][i][j]
      Value(i, j) == IF n = 1 THEN 250 * At(1, i, j)
        ELSE LET num == At(low, i, j) * (len - w) + At(low + 1, i, j) * w
                 years == len \div Year IN
             \* num / (4 len) in 10^-3; len = years * 1461
             ((num \div Year) * 250 + ((num % Year) * 250) \div Year) \div years IN
  [i \in 1..3 |-> [j \in 1..4 |-> Value(i, j)]]

Unit(p) == <<p.lat[2] * p.lon[2], p.lat[2] * p.lon[1], p.lat[1] * p.lon[3]>>
North(p) == <<-p.lat[1] * p.lon[2], -p.lat[1] * p.lon[1], p.lat[2] * p.lon[3]>>
East(p) == <<-p.lat[3] * p.lon[1], p.lat[3] * p.lon[2], 0>>
Size(p) == p.lat[3] * p.lon[3]
Apply(m, u, size, shift) ==
  [i \in 1..3 |-> (m[i][1] * u[1] + m[i][2] * u[2] + m[i][3] * u[3]) \div size + shift * m[i][4]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Dist(a) == Max(Abs(a[1]), Max(Abs(a[2]), Abs(a[3])))

Position(v, q) ==
  LET tol == 8 * 10000 + 2 * Dist(v) IN
  /\ Dot(v, q) > 0
  /\ Abs(v[1] * q[2] - v[2] * q[1]) <= tol
  /\ Abs(v[2] * q[3] - v[3] * q[2]) <= tol
  /\ Abs(v[3] * q[1] - v[1] * q[3]) <= tol
Near10(a, b, scale) == Abs(a - b) <= scale
Base(m, p, o) ==
  LET n == Apply(m, North(p), Size(p), 0)
      e == Apply(m, East(p), Size(p), 0)
      tol == (12 + (Dist(n) + Dist(e)) \div 2000)
      Proj(axis, v) == Dot(axis, v) \div 10000 IN
  /\ Near10(o.f[1], Proj(o.n, n), tol)
  /\ Near10(o.f[2], -Proj(o.n, e), tol)
  /\ Near10(o.f[3], -Proj(o.e, n), tol)
  /\ Near10(o.f[4], Proj(o.e, e), tol)
Area(o) == LET g == o.g
               big == Max(Max(Abs(g[1]), Abs(g[2])), Max(Abs(g[3]), Abs(g[4]))) IN
           Abs(g[5] - ((g[1] * g[4]) \div 1000 - (g[2] * g[3]) \div 1000)) <= 4 + big \div 400

Fits(o, i, t) ==
  LET p == o.points[i]
      m == TLCEval(Matrix(o.file, t, p.rho))
      v == TLCEval(Apply(m, Unit(p), Size(p), 1))
      got == o.obs.out[i] IN
  <<Position(v, got.q), o.base = 0 \/ Base(m, p, got)>>

JudgePoint(o, i) ==
  LET p == o.points[i]
      got == o.obs.out[i]
      eps == o.file.epochs
      n == Len(eps)
      first == (eps[1] - 2000) * Year
      final == (eps[n] - 2000) * Year IN
  IF p.t = NaNTime THEN <<IF got.nan = 1 THEN {} ELSE {"nan"}, {"nan"}>>
  ELSE IF got.nan # 0 THEN <<{"position"}, {"position"}>>
  ELSE LET sharing == {o.points[j].t : j \in {k \in DOMAIN o.points :
                         o.points[k].t # NaNTime /\ Abs(o.points[k].t - p.t) <= Day}}
           own == Fits(o, i, p.t)
           ok == own[1] /\ own[2]
           fits == {s \in sharing : LET f == Fits(o, i, s) IN f[1] /\ f[2]}
           class == {"position"} \cup (IF o.base = 1 THEN {"base", "area"} ELSE {})
                    \cup (IF n = 1 THEN {"single"} ELSE {})
                    \cup (IF p.t < first THEN {"before"} ELSE {})
                    \cup (IF p.t > final THEN {"after"} ELSE {})
                    \cup (IF p.t > first /\ p.t < final THEN {"inside"} ELSE {})
                    \cup (IF \E k \in DOMAIN eps : p.t = (eps[k] - 2000) * Year THEN {"node"} ELSE {})
                    \cup (IF Cardinality(sharing) > 1 THEN {"shared"} ELSE {})
                    \cup (IF i > 1 /\ o.points[i - 1].rho # p.rho THEN {"altitude"} ELSE {})
                    \cup (IF i > 1 /\ o.points[i - 1].t # p.t THEN {"epoch"} ELSE {}) IN
       <<(IF ok \/ fits # {} THEN {} ELSE IF own[1] THEN {"base"} ELSE class \ {"base", "area"})
         \cup (IF o.base = 1 /\ ~Area(got) THEN {"area"} ELSE {}), class>>

Judge(o) ==
  IF o.ev = "refused" THEN
    <<IF o.obs.what = 0 \/ (o.allnan = 1 /\ o.obs.what = 1) THEN {} ELSE {"refused"}, {"refused"}>>
  ELSE IF o.obs.what # 0 \/ Len(o.obs.out) # Len(o.points) THEN <<{"shape"}, {"shape"}>>
  ELSE LET j == TLCEval([i \in DOMAIN o.points |-> JudgePoint(o, i)]) IN
       <<UNION {j[i][1] : i \in DOMAIN j} \cup (IF o.obs.same = 1 THEN {} ELSE {"same"}),
         UNION {j[i][2] : i \in DOMAIN j} \cup {"same", "shape"}>>

INSTANCE TraceMachine
=============================================================================
