----------------------------- MODULE TraceBlocks ----------------------------
(***************************************************************************)
(* Validation of the blocks of the spherical harmonic evaluation.          *)
(* Fixed point numbers (10^-8) unless said otherwise.                      *)
(* ev "legendre": s, c: sine and cosine of the latitude, obs.p: rows of the*)
(*   functions, obs.d: derivatives over degree, obs.q: [n] functions of the*)
(*   first order over c and n, extra: rounding allowed for derivatives     *)
(* ev "rows": rows of some degrees, obs.p and obs.d as above              *)
(* ev "loncossin": s, c, obs.fast and obs.slow: pairs                      *)
(* ev "relradpow": <<p, q>> relative radius, internal, obs.first           *)
(*   (first element times 10^6), obs.m, obs.e: mantissas and exponents     *)
(* ev "nearpower": step: relative radius less one, obs.powers             *)
(* ev "radius0": classes of elements for zero radius                       *)
(* ev "fourier": (c, s) of both angles, least indices, coefficients,       *)
(*   obs.value                                                             *)
(* ev "sums": integer blocks, applied: degrees of the potential and gradient, obs.pot and obs.grd exact integers (eastward *)
(*   component times the cosine and 10^4)                                  *)
(* ev "compose": differences of sums of blocks from whole-array evaluation *)
(*   relative to the norm (10^-11)                                         *)
(* ev "factor": an evaluation of a mode with the factors sp and sg, the     *)
(*   plain potential and gradient (10^-6 of the largest)                   *)
(* ev "approach": distances from the pole and differences of the fields    *)
(***************************************************************************)
EXTENDS Tracer, Fixed

VARIABLES l, bad, known, counts
Clauses == {"start", "column", "diagonal", "derivative", "slope", "addition", "cossin", "algorithms", "power", "near_power",
            "radius0", "fourier", "potential", "gradient", "pole", "compose", "approach", "slope_pole", "factor", "mode"}
Failed(name, ok) == IF ok THEN {} ELSE {name}
Max0(S) == CHOOSE x \in S \cup {0} : \A y \in S : y <= x

MaxN == Max0({IF Trace[k].ev = "legendre" THEN Trace[k].degree ELSE 0 : k \in 1..NLines} \cup {12})
Table(F(_, _)) == [n \in 1..MaxN |-> [m \in 0..n |-> F(n, m)]]
\* sqrt(n^2 - m^2) / (2n - 1) and sqrt((n-1)^2 - m^2) / (2n - 1)
ThisF(n, m) == RootOver(n * n - m * m, 2 * n - 1)
LastF(n, m) == IF m >= n THEN 0 ELSE RootOver((n - 1) * (n - 1) - m * m, 2 * n - 1)
\* coefficients of the neighbouring orders in the derivative, over 2n
DownF(n, m) == IF m = 0 THEN 0 ELSE RootOver((n + m) * (n - m + 1) * (IF m = 1 THEN 2 ELSE 1), 2 * n)
UpF(n, m) == IF m = 0 THEN RootOver(2 * n * (n + 1), 2 * n) ELSE RootOver((n - m) * (n + m + 1), 2 * n)
This == TLCEval(Table(ThisF))
Before == TLCEval(Table(LastF))
Down == TLCEval(Table(DownF))
Up == TLCEval(Table(UpF))
Diag == TLCEval([n \in 1..MaxN |-> RootOver((2 * n - 1) * 2 * n, 2 * n)])
\* first order over cosine: sqrt(2 n (n+1)) / 2n and sqrt((n-1)(n-2)) / 2n
SlopeDown == TLCEval([n \in 1..MaxN |-> RootOver(2 * n * (n + 1), 2 * n)])
SlopeUp == TLCEval([n \in 1..MaxN |-> RootOver((n - 1) * (n - 2), 2 * n)])

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)

JudgeLegendre(o) ==
  LET N == o.degree
      p == o.obs.p
      d == o.obs.d
      q == o.obs.q
      P(n, m) == IF m > n THEN 0 ELSE p[n + 1][m + 1]
      start == /\ P(0, 0) = Unit /\ d[1][1] = 0
               /\ N >= 1 => Abs(P(1, 0) - o.s) <= 1 /\ Abs(P(1, 1) - o.c) <= 1
      column == \A n \in 2..N : \A m \in 0..(n - 1) :
                  Abs(Mul(This[n][m], P(n, m)) - Mul(o.s, P(n - 1, m)) + Mul(Before[n][m], P(n - 2, m))) <= 6
      diagonal == \A n \in 2..N : Abs(P(n, n) - Mul(o.c, Mul(Diag[n], P(n - 1, n - 1)))) <= 5
      \* functions below the order zero are not present
      derivative == \A n \in 1..N : \A m \in 0..n :
                      Abs(d[n + 1][m + 1]
                          - (IF m = 0 THEN Mul(Up[n][0], P(n, 1))
                             ELSE Mul(Up[n][m], P(n, m + 1)) - Mul(Down[n][m], P(n, m - 1)))) <= 6 + o.extra
      slope == \A n \in 2..N : Abs(q[n] - Mul(SlopeDown[n], P(n - 1, 0)) - Mul(SlopeUp[n], P(n - 1, 2))) <= 6 + o.extra
      addition == \A n \in 0..N : Abs(Sum([k \in 1..(n + 1) |-> Mul(P(n, k - 1), P(n, k - 1))], n + 1) - Unit) <= 20 + 4 * n IN
  <<Failed("start", start) \cup Failed("column", column) \cup Failed("diagonal", diagonal)
    \cup Failed("derivative", derivative) \cup Failed("slope", slope) \cup Failed("addition", addition),
    {"start", "addition"} \cup (IF N >= 2 THEN {"column", "diagonal", "derivative", "slope"} ELSE {})>>

\* sums of squares of the functions and of their derivatives over degree
\* (rows of high degrees)
JudgeRows(o) ==
  LET Square(x) == Sum([k \in DOMAIN x |-> Mul(x[k], x[k])], Len(x))
      rows == DOMAIN o.rows
      sized == \A i \in rows : Len(o.obs.p[i]) = o.rows[i] + 1 /\ Len(o.obs.d[i]) = o.rows[i] + 1
      addition == \A i \in rows : Abs(Square(o.obs.p[i]) - Unit) <= 20 + 4 * o.rows[i]
      gradient == \A i \in rows : LET n == o.rows[i] IN
                    Abs(Square(o.obs.d[i]) - (Unit \div (2 * n)) * (n + 1)) <= 20 + 6 * n + o.extra IN
  <<IF ~sized THEN {"addition"} ELSE Failed("addition", addition) \cup Failed("derivative", gradient), {"addition", "derivative"}>>

JudgeLoncossin(o) ==
  LET N == o.degree
      Series(x) == /\ Len(x) = N + 1 /\ x[1] = <<Unit, 0>>
                   /\ \A k \in 1..N : /\ Abs(x[k + 1][1] - Mul(x[k][1], o.c) + Mul(x[k][2], o.s)) <= 6
                                      /\ Abs(x[k + 1][2] - Mul(x[k][1], o.s) - Mul(x[k][2], o.c)) <= 6
                                      /\ Abs(Mul(x[k + 1][1], x[k + 1][1]) + Mul(x[k + 1][2], x[k + 1][2]) - Unit) <= 6
      same == \A k \in 1..(N + 1) : \A i \in 1..2 : Abs(o.obs.fast[k][i] - o.obs.slow[k][i]) <= 1 IN
  <<Failed("cossin", Series(o.obs.fast) /\ Series(o.obs.slow)) \cup Failed("algorithms", same), {"cossin", "algorithms"}>>

\* a 10^d = b with relative precision of the mantissas of 8 digits
Scaled(a, b, d, tol) == CASE d = 0 -> Abs(a - b) <= tol
                          [] d > 0 /\ d < 4 -> Abs(a - b \div (10^d)) <= tol
                          [] d < 0 /\ d > -4 -> Abs(a \div (10^(-d)) - b) <= tol
                          [] OTHER -> FALSE
JudgeRelradpow(o) ==
  LET p == o.ratio[1]
      q == o.ratio[2]
      m == o.obs.m
      e == o.obs.e
      n == Len(m)
      first == IF o.internal = 1 THEN LongDiv(q * q, p * p, 6) ELSE LongDiv(q, p, 6)
      ok == /\ n = o.degree + 1
            /\ Abs(o.obs.first - first) <= 1
            /\ \A i \in 1..(n - 1) :
                 IF o.internal = 1 THEN Scaled(m[i + 1] * p, m[i] * q, e[i + 1] - e[i], p + q + 1)
                 ELSE Scaled(m[i + 1] * q, m[i] * p, e[i + 1] - e[i], p + q + 1) IN
  <<Failed("power", ok), {"power"}>>

\* (1 + x)^k next to one: 1 + k x with the error of k(k-1) x^2 / 2
JudgeNearPower(o) ==
  LET x == o.step
      r == o.obs.powers
      Ok(i) == LET k == IF o.internal = 1 THEN -(i + 1) ELSE i - 2 IN
               Abs(r[i] - Unit - k * x) <= 2 + Abs(k) + (k * k * (Abs(x) \div 1000 + 1) * (Abs(x) \div 1000 + 1)) \div 50 IN
  <<Failed("near_power", Len(r) = o.degree + 1 /\ \A i \in DOMAIN r : Ok(i)), {"near_power"}>>

JudgeRadius0(o) ==
  LET x == o.obs.classes
      expected == [i \in 1..(o.degree + 1) |-> IF o.internal = 1 \/ i = 1 THEN "inf" ELSE IF i = 2 THEN "one" ELSE "zero"] IN
  <<Failed("radius0", x = expected), {"radius0"}>>

\* multiples of an angle
RECURSIVE Power(_, _, _)
Power(c, s, k) ==
  IF k = 0 THEN <<Unit, 0>>
  ELSE LET x == TLCEval(Power(c, s, k - 1)) IN <<Mul(x[1], c) - Mul(x[2], s), Mul(x[1], s) + Mul(x[2], c)>>
Multiple(c, s, k) == IF k >= 0 THEN Power(c, s, k) ELSE Power(c, -s, -k)
JudgeFourier(o) ==
  LET a == o.coeff
      n1 == o.shape[1]
      n2 == o.shape[2]
      x == TLCEval([i \in 1..n1 |-> Multiple(o.one[2], o.one[1], o.least[1] + i - 1)])
      y == TLCEval([j \in 1..n2 |-> Multiple(o.two[2], o.two[1], o.least[2] + j - 1)])
      Term(i, j) ==
        LET A == a[i][j][1]
            B == a[i][j][2] IN
        IF A = 0 /\ B = 0 THEN 0
        ELSE A * (Mul(x[i][1], y[j][1]) - Mul(x[i][2], y[j][2])) + B * (Mul(x[i][1], y[j][2]) + Mul(x[i][2], y[j][1]))
      value == Sum([i \in 1..n1 |-> Sum([j \in 1..n2 |-> Term(i, j)], n2)], n1) IN
  <<Failed("fourier", Abs(o.obs.value - value) <= 400), {"fourier"}>>

\* exact sums of products of the blocks
JudgeSums(o) ==
  LET N == o.applied[2]
      NPot == o.applied[1]
      At(n, m) == (n * (n + 1)) \div 2 + m + 1
      Cos(n, m) == o.coef[At(n, m)][1] * o.lcs[m + 1][1] + o.coef[At(n, m)][2] * o.lcs[m + 1][2]
      Sin(n, m) == o.coef[At(n, m)][1] * o.lcs[m + 1][2] - o.coef[At(n, m)][2] * o.lcs[m + 1][1]
      \* orders zero have the cosine coefficient only
      Row(n, x) == o.coef[At(n, 0)][1] * x[At(n, 0)] + Sum([m \in 1..n |-> Cos(n, m) * x[At(n, m)]], n)
      Total(f) == f[1] + Sum([n \in 1..N |-> f[n + 1]], N)
      pot == o.rad * Sum([k \in 1..(NPot + 1) |-> o.rrp[k] * Row(k - 1, o.lp)], NPot + 1)
      north == Total([k \in 1..(N + 1) |-> IF k = 1 THEN 0 ELSE o.rrp[k] * Row(k - 1, o.ldp)])
      up == Total([k \in 1..(N + 1) |-> o.rrp[k] * Row(k - 1, o.lp) * (IF o.internal = 1 THEN -k ELSE k - 1)])
      east == -Total([k \in 1..(N + 1) |-> o.rrp[k] * Sum([m \in 1..(k - 1) |-> m * Sin(k - 1, m) * o.lp[At(k - 1, m)]], k - 1)])
      \* limit of the Legendre function of the first order over cosine
      Limit(n) == RootOver(2 * n * (n + 1), 2 * 100) * (IF o.pole < 0 /\ n % 2 = 0 THEN -1 ELSE 1)
      polar == -Sum([n \in 1..N |-> o.rrp[n + 1] * Sin(n, 1) * Limit(n)], N)
      g == o.obs.grd IN
  <<Failed("potential", o.obs.pot = pot)
    \cup Failed("gradient", g[1] = north /\ g[3] = up /\ (o.pole # 0 \/ Abs(g[2] - 10000 * east) <= 1))
    \cup Failed("pole", o.pole = 0 \/ Abs(g[2] - polar) <= 100),
    {"potential", "gradient"} \cup (IF o.pole = 0 THEN {} ELSE {"pole"})>>

JudgeCompose(o) ==
  <<Failed("compose", o.obs.undefined = 0 /\ \A i \in DOMAIN o.obs.diff : o.obs.diff[i] <= 100), {"compose"}>>

\* the field changes by at most (n + 1)(n + 2) times the distance relative to the norm
\* next to the pole it changes linearly: the slopes at two distances differ by at most their curvature
SameSlope(o, far, near) ==
  \A k \in 1..3 : Abs(far[2][k] - near[2][k]) <= 3 + 40 \div near[1] + ((o.degree + 1) * (o.degree + 2) * (o.degree + 3) * (far[1] \div 100 + 1)) \div 2
JudgeApproach(o) ==
  LET f == (o.degree + 1) * (o.degree + 2) IN
  <<Failed("approach", o.obs.undefined = 0 /\ \A i \in DOMAIN o.obs.diff : o.obs.diff[i] <= f * o.distance[i] + 100)
    \cup Failed("slope_pole", \A i \in DOMAIN o.obs.slopes : i > 1 => SameSlope(o, o.obs.slopes[i - 1], o.obs.slopes[i])),
    {"approach"} \cup (IF Len(o.obs.slopes) > 1 THEN {"slope_pole"} ELSE {})>>

\* the factors multiply the potential and the components of the gradient in the output frame
Near(x, y, k) == Abs(x - k * y) <= Abs(k) + 2
JudgeFactor(o) ==
  LET pot == o.obs.plain[1]
      grd == o.obs.plain[2]
      good == /\ \A i \in DOMAIN o.obs.pot : Near(o.obs.pot[i], pot[i], o.sp)
              /\ \A i \in DOMAIN o.obs.grd : \A k \in 1..3 : Near(o.obs.grd[i][k], grd[i][k], o.sg[k])
      plain == o.sp = 1 /\ o.sg = <<1, 1, 1>> IN
  <<Failed(IF plain THEN "mode" ELSE "factor", good), {IF plain THEN "mode" ELSE "factor"}>>

Judge(o) ==
  CASE o.ev = "legendre" -> JudgeLegendre(o)
    [] o.ev = "rows" -> JudgeRows(o)
    [] o.ev = "loncossin" -> JudgeLoncossin(o)
    [] o.ev = "relradpow" -> JudgeRelradpow(o)
    [] o.ev = "nearpower" -> JudgeNearPower(o)
    [] o.ev = "radius0" -> JudgeRadius0(o)
    [] o.ev = "fourier" -> JudgeFourier(o)
    [] o.ev = "sums" -> JudgeSums(o)
    [] o.ev = "compose" -> JudgeCompose(o)
    [] o.ev = "factor" -> JudgeFactor(o)
    [] OTHER -> JudgeApproach(o)

INSTANCE TraceMachine
=============================================================================
