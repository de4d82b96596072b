------------------------------- MODULE Sharing ------------------------------
(***************************************************************************)
(* Design model of a history of calls, of modifications of their results   *)
(* and of new contents of the inputs (refill) by the user.  A function may *)
(* return a new array (fresh), a view of its input (view), the array       *)
(* returned by the previous call (recycled), its internal array            *)
(* (internal), or remember the value of an array it already met            *)
(* (identity).  Only for fresh results neither the calls nor the           *)
(* modifications can be noticed elsewhere and the results follow the       *)
(* contents of the inputs.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Policy, MaxLen, Keys

VARIABLES cells, input, internal, results, history, last, met
vars == <<cells, input, internal, results, history, last, met>>
\* cells: contents of the memory; input: cell holding the values of the key;
\* internal: cell per key; results: cells of the results returned so far;
\* met: values remembered by the cell of the input (0: none)
Dirty == 99
Init == /\ cells = [c \in 1..(2*Cardinality(Keys)) |-> IF c <= Cardinality(Keys) THEN c ELSE 10*(c - Cardinality(Keys))]
        /\ input = [k \in Keys |-> k] /\ internal = [k \in Keys |-> Cardinality(Keys) + k]
        /\ results = <<>> /\ history = <<>> /\ last = 0 /\ met = [k \in Keys |-> 0]

\* the value of the function
Value(k) == 10*cells[input[k]]
New == Len(cells) + 1
Call(k) ==
  /\ Len(history) < MaxLen /\ history' = Append(history, k)
  /\ met' = IF met[input[k]] = 0 THEN [met EXCEPT ![input[k]] = Value(k)] ELSE met
  /\ CASE Policy = "fresh" -> cells' = Append(cells, Value(k)) /\ results' = Append(results, <<k, New>>)
       [] Policy = "identity" -> cells' = Append(cells, met'[input[k]]) /\ results' = Append(results, <<k, New>>)
       [] Policy = "view" -> cells' = cells /\ results' = Append(results, <<k, input[k]>>)
       [] Policy = "internal" -> cells' = cells /\ results' = Append(results, <<k, internal[k]>>)
       [] Policy = "recycled" ->
            IF last = 0 THEN cells' = Append(cells, Value(k)) /\ results' = Append(results, <<k, New>>)
            ELSE cells' = [cells EXCEPT ![last] = Value(k)] /\ results' = Append(results, <<k, last>>)
  /\ last' = results'[Len(results')][2]
  /\ UNCHANGED <<input, internal>>
\* the user overwrites the i-th result
Write(i) ==
  /\ Len(history) < MaxLen /\ cells[results[i][2]] # Dirty
  /\ history' = Append(history, -i)
  /\ cells' = [cells EXCEPT ![results[i][2]] = Dirty]
  /\ UNCHANGED <<input, internal, results, last, met>>
\* the user exchanges the contents of the inputs
Other(k) == IF k + 1 \in Keys THEN k + 1 ELSE CHOOSE x \in Keys : \A y \in Keys : x <= y
Refill ==
  /\ Len(history) < MaxLen /\ results # <<>> /\ history[Len(history)] # 0
  /\ history' = Append(history, 0)
  /\ input' = [k \in Keys |-> input[Other(k)]]
  /\ cells' = [c \in DOMAIN cells |-> IF \E k \in Keys : input'[k] = c THEN CHOOSE k \in Keys : input'[k] = c ELSE cells[c]]
  /\ UNCHANGED <<internal, results, last, met>>
Next == (\E k \in Keys : Call(k)) \/ (\E i \in DOMAIN results : Write(i)) \/ Refill
Spec == Init /\ [][Next]_vars

Written(i) == \E h \in DOMAIN history : history[h] = -i
Intact == \A k \in Keys : cells[input[k]] = k
Own == \A i \in DOMAIN results : cells[results[i][2]] = (IF Written(i) THEN Dirty ELSE 10*results[i][1])
Export == Len(history) # MaxLen \/ CSVWrite("%1$s", <<ToJson(history)>>, IOEnv.OUT)
=============================================================================
