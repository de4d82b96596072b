------------------------------- MODULE Fixed --------------------------------
(***************************************************************************)
(* Arithmetic of fixed point numbers with 8 decimal places within 32-bit   *)
(* integers: products by splitting to limbs, quotients and square roots by *)
(* the long-hand algorithms.                                               *)
(***************************************************************************)
EXTENDS Integers
Unit == 100000000
Abs(x) == IF x < 0 THEN -x ELSE x

\* product, |x| <= 2 and |y| <= 15
MulPos(x, y) ==
  LET x1 == x \div 10000
      x0 == x % 10000
      y1 == y \div 10000
      y0 == y % 10000 IN
  x1 * y1 + (x1 * y0 + x0 * y1 + (x0 * y0) \div 10000 + 5000) \div 10000
Mul(x, y) == IF (x < 0) = (y < 0) THEN MulPos(Abs(x), Abs(y)) ELSE -MulPos(Abs(x), Abs(y))

\* integer part of n / d * 10^k for n >= 0
RECURSIVE LongDiv(_, _, _)
LongDiv(n, d, k) ==
  IF k = 0 THEN n \div d
  ELSE LET rest == 10 * (n % d) IN
       (n \div d) * (10^k) + LongDiv(rest, d, k - 1)
Div(n, d) == IF n < 0 THEN -LongDiv(-n, d, 8) ELSE LongDiv(n, d, 8)

\* integer part of the square root
RECURSIVE IntRoot(_, _, _)
IntRoot(x, a, b) ==  \* a^2 <= x < b^2
  IF b - a = 1 THEN a
  ELSE LET c == (a + b) \div 2 IN IF c * c <= x THEN IntRoot(x, c, b) ELSE IntRoot(x, a, c)

\* digits of the square root: p^2 + r = x 10^(2 t)
Digit(p, r) == CHOOSE d \in 0..9 : (20 * p + d) * d <= r /\ (d = 9 \/ (20 * p + d + 1) * (d + 1) > r)
RECURSIVE RootDigits(_, _, _)
RootDigits(p, r, t) ==
  IF p > 10000000 THEN <<p, r, t>>
  ELSE LET d == Digit(p, 100 * r) IN
       RootDigits(10 * p + d, 100 * r - (20 * p + d) * d, t + 1)

\* square root of an integer over an integer
RootOver(x, d) ==
  IF x = 0 THEN 0
  ELSE LET p0 == IntRoot(x, 0, 40000)
           q == RootDigits(p0, x - p0 * p0, 0)
           digits == 10 * q[1] + (5 * q[2]) \div q[1]
           places == q[3] + 1 IN
       IF places <= 8 THEN LongDiv(digits, d, 8 - places)
       ELSE (digits \div (10^(places - 8))) \div d
=============================================================================
