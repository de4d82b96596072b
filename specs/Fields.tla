------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Exact magnetic fields on the reference sphere r = a.                    *)
(* A point is the direction <<x, y, z>>/rho with integers x, y, z.         *)
(* The potential of degree 1 is V/a = m.u, of degree 2 a harmonic          *)
(* quadratic form H(u); with V ~ r^-(n+1) inside and ~ r^n outside:        *)
(*   internal  B = 3 (m.u) u - m  and  B = 5 H(u) u - grad H(u)            *)
(*   external  B = -m             and  B = -grad H(u)                      *)
(* The terms <<n, m, c>> have integer values c scaled such that            *)
(*   (1,0) z   (1,1) x   (1,-1) y   (2,0) (2zz-xx-yy)/2, even c            *)
(*   (2,1) xz  (2,-1) yz  (2,2) xx-yy  (2,-2) 2xy                          *)
(* Fields of directions with the denominator d are multiplied by d^3.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul3(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* product with the matrix of rows and with its transposition
MatVec(m, a) == <<Dot3(m[1], a), Dot3(m[2], a), Dot3(m[3], a)>>
Transposed(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
Zero3 == <<0, 0, 0>>

RECURSIVE SumVec(_, _)
SumVec(f, s) == IF s = {} THEN Zero3
                ELSE LET x == CHOOSE x \in s : TRUE IN Add3(f[x], SumVec(f, s \ {x}))

\* d^3 times the field of one term in the direction u/d
TermField(term, ext, u, d) ==
  LET n == term[1]
      m == term[2]
      c == term[3]
      x == u[1]
      y == u[2]
      z == u[3]
      mom == IF m = 0 THEN <<0, 0, c>> ELSE IF m = 1 THEN <<c, 0, 0>> ELSE <<0, c, 0>>
      h == CASE m = 0 -> (c * (2*z*z - x*x - y*y)) \div 2
             [] m = 1 -> c * x * z
             [] m = -1 -> c * y * z
             [] m = 2 -> c * (x*x - y*y)
             [] OTHER -> 2 * c * x * y
      g == CASE m = 0 -> <<-c * x, -c * y, 2 * c * z>>
             [] m = 1 -> <<c * z, 0, c * x>>
             [] m = -1 -> <<0, c * z, c * y>>
             [] m = 2 -> <<2 * c * x, -2 * c * y, 0>>
             [] OTHER -> <<2 * c * y, 2 * c * x, 0>>
  IN IF n = 1
     THEN IF ext THEN Mul3(-d*d*d, mom)
          ELSE Add3(Mul3(3 * Dot3(mom, u) * d, u), Mul3(-d*d*d, mom))
     ELSE IF ext THEN Mul3(-d*d, g)
          ELSE Add3(Mul3(5 * h, u), Mul3(-d*d, g))

\* axes of the geocentric frame <<north, east, up>>, each times the
\* denominators of the point (rho) and of its horizontal part (hor);
\* in the poles hor = 0 and the meridian is <<x, y>> = lon, a unit vector
Frame(p) ==
  LET x == p.u[1]
      y == p.u[2]
      z == p.u[3]
      cx == IF p.hor = 0 THEN p.lon[1] ELSE x
      cy == IF p.hor = 0 THEN p.lon[2] ELSE y
      h == IF p.hor = 0 THEN 1 ELSE p.hor
  IN << <<-cx * z, -cy * z, p.hor * h>>, <<-cy * p.rho, cx * p.rho, 0>>,
        <<x * h, y * h, z * h>> >>
FrameDen(p) == p.rho * (IF p.hor = 0 THEN 1 ELSE p.hor)

\* rotation of the dipole frame, columns are its axes; pole: sines and
\* cosines sl/d, cl/d of the latitude and so/e, co/e of the longitude
DipoleMatrix(q) ==
  << <<q.sl * q.co, -q.so * q.d, q.cl * q.co>>,
     <<q.sl * q.so, q.co * q.d, q.cl * q.so>>,
     <<-q.cl * q.e, 0, q.sl * q.e>> >>
DipoleDen(q) == q.d * q.e
=============================================================================
