------------------------------- MODULE Subset -------------------------------
(***************************************************************************)
(* Design model of the degree selection:                                   *)
(*  - the walk over all (n, m) pairs visits every row of the coefficient   *)
(*    array exactly once (the mapping of the terms is a bijection),        *)
(*  - the sub-setting algorithm of the coefficient sets (defaults for      *)
(*    negative limits, short cut if the limits do not restrict anything,   *)
(*    selection by the degrees otherwise) selects exactly the terms with   *)
(*    the degree inside of the limits,                                     *)
(*  - selections of the parts of a partition of a degree range are         *)
(*    disjoint and sum to the selection of the range.                      *)
(* Every selection is exported and replayed in the code.                   *)
(***************************************************************************)
EXTENDS Degrees, TLC, Json, CSV, IOUtils
CONSTANTS TopDegree, Span     \* bijection up to TopDegree, degrees 1..Span
VARIABLES phase, n, m, row, seen, degs, lim, picked
vars == <<phase, n, m, row, seen, degs, lim, picked>>

Init == /\ phase = "walk" /\ n = 0 /\ m = 0 /\ row = 0 /\ seen = {}
        /\ degs = {} /\ lim = <<-1, -1>> /\ picked = {}

Walk == /\ phase = "walk" /\ n <= TopDegree
        /\ seen' = seen \cup {<<Row(n, m), c>> : c \in 0..(IF m = 0 THEN 0 ELSE 1)}
        /\ row' = row + 1
        /\ IF m < n THEN m' = m + 1 /\ n' = n ELSE m' = 0 /\ n' = n + 1
        /\ UNCHANGED <<phase, degs, lim, picked>>

Choose(d, lo, hi) ==
  /\ phase = "walk" /\ n = 0 /\ phase' = "select"
  /\ degs' = d /\ lim' = <<lo, hi>>
  /\ UNCHANGED <<n, m, row, seen, picked>>

Min(s) == CHOOSE x \in s : \A y \in s : x <= y
Max(s) == CHOOSE x \in s : \A y \in s : x >= y

Select ==
  /\ phase = "select" /\ phase' = "done"
  /\ LET hi == IF lim[2] < 0 THEN Max(degs) ELSE lim[2]
         lo == IF lim[1] < 0 THEN Min(degs) ELSE lim[1] IN
     picked' = IF lo > Min(degs) \/ hi < Max(degs)
               THEN {d \in degs : d <= hi /\ d >= lo} ELSE degs
  /\ CSVWrite("%1$s", <<ToJson([degs |-> degs, lim |-> lim])>>, IOEnv.OUT)
  /\ UNCHANGED <<n, m, row, seen, degs, lim>>

Next == \/ Walk \/ Select
        \/ \E d \in SUBSET (1..Span) \ {{}} : \E lo, hi \in -1..(Span + 1) : Choose(d, lo, hi)
Spec == Init /\ [][Next]_vars

Bijection == phase = "walk" /\ n <= TopDegree =>
  Row(n, m) = row /\ \A c \in {0, 1} : <<Row(n, m), c>> \notin seen
Correct == phase = "done" => picked = {d \in degs : Selected(d, lim)}
Partition == phase = "done" =>
  \A k \in 0..(Span + 1) :
    LET a == {d \in degs : Selected(d, <<lim[1], k>>)}
        b == {d \in degs : Selected(d, <<k + 1, lim[2]>>)} IN
    (lim[1] <= k /\ (k < lim[2] \/ lim[2] < 0)) =>
      (a \cap b = {} /\ a \cup b = picked)
=============================================================================
