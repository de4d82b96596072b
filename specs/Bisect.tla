------------------------------- MODULE Bisect -------------------------------
(***************************************************************************)
(* Design model of the node lookup: halving of the index range, for both   *)
(* sides, over every non-descending node list (duplicities included).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxNodes, MaxValue  \* nodes are even numbers up to 2*MaxValue

VARIABLES phase, nodes, x, side, lo, hi, res, steps
vars == <<phase, nodes, x, side, lo, hi, res, steps>>

Init == /\ phase = "build" /\ nodes = <<>> /\ x = 0 /\ side = "" /\ lo = 0
        /\ hi = 0 /\ res = -2 /\ steps = 0

AddNode(v) == /\ phase = "build" /\ Len(nodes) < MaxNodes
              /\ nodes # <<>> => nodes[Len(nodes)] <= v
              /\ nodes' = Append(nodes, v)
              /\ UNCHANGED <<phase, x, side, lo, hi, res, steps>>

N == Len(nodes)
V(i) == nodes[i + 1]       \* 0-based access
After(i) == IF side = "right" THEN x >= V(i) ELSE x > V(i)

\* the borders; x = -99 stands for NaN, no comparison with it holds
Query(q, s) ==
  /\ phase = "build" /\ phase' = "border" /\ x' = q /\ side' = s
  /\ UNCHANGED <<nodes, lo, hi, res, steps>>

Border ==
  /\ phase = "border"
  /\ IF N = 0 \/ x = -99 \/ ~After(0)
     THEN res' = -1 /\ phase' = "done" /\ UNCHANGED <<lo, hi>>
     ELSE IF After(N - 1)
     THEN res' = N - 1 /\ phase' = "done" /\ UNCHANGED <<lo, hi>>
     ELSE res' = res /\ phase' = "halve" /\ lo' = 0 /\ hi' = N - 2
  /\ UNCHANGED <<nodes, x, side, steps>>

Halve ==
  /\ phase = "halve"
  /\ IF lo < hi
     THEN LET i == lo + 1 + (hi - lo) \div 2 IN
          /\ IF After(i) THEN lo' = i /\ hi' = hi ELSE hi' = i - 1 /\ lo' = lo
          /\ steps' = steps + 1
          /\ UNCHANGED <<phase, res>>
     ELSE /\ res' = lo /\ phase' = "done" /\ UNCHANGED <<lo, hi, steps>>
  /\ UNCHANGED <<nodes, x, side>>

Export == /\ phase = "build" /\ phase' = "exported"
          /\ CSVWrite("%1$s", <<ToJson(nodes)>>, IOEnv.OUT)
          /\ UNCHANGED <<nodes, x, side, lo, hi, res, steps>>

Next == \/ \E v \in 0..MaxValue : AddNode(2 * v)
        \/ \E q \in (-1..(2 * MaxValue + 1)) \cup {-99}, s \in {"left", "right"} : Query(q, s)
        \/ Border \/ Halve \/ Export
Spec == Init /\ [][Next]_vars /\ WF_vars(Border \/ Halve)

Expected ==
  IF x = -99 THEN -1
  ELSE Cardinality({j \in 1..N : IF side = "right" THEN nodes[j] <= x ELSE nodes[j] < x}) - 1

Correct == phase = "done" => res = Expected
\* the result is always inside of the searched range
RangeInv == phase = "halve" => lo <= hi /\ lo <= Expected /\ Expected <= hi
\* the halving is logarithmic
StepsBound == steps = 0 \/ 2 ^ (steps - 1) <= N
Ends == (phase = "border") ~> (phase = "done")
=============================================================================
