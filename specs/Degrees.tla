------------------------------- MODULE Degrees -------------------------------
(***************************************************************************)
(* Terms of the spherical harmonic series and their selection by degree.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* position of the coefficient of the degree n and order m (h for m < 0)
Abs(m) == IF m < 0 THEN -m ELSE m
Row(n, m) == (n * (n + 1)) \div 2 + Abs(m)
Col(m) == IF m < 0 THEN 1 ELSE 0
Rows(degree) == ((degree + 1) * (degree + 2)) \div 2

\* negative limit stands for no limit
Selected(n, lim) == (lim[1] < 0 \/ n >= lim[1]) /\ (lim[2] < 0 \/ n <= lim[2])
=============================================================================
