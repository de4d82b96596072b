----------------------------- MODULE MioSwitch -----------------------------
(***************************************************************************)
(* Design model of the MIO primary field evaluation.  The elements of the  *)
(* call are split to those below and those above the ionosphere, each      *)
(* subset is gathered, evaluated by its own model - which again splits the *)
(* subset to the defined and the undefined elements (time outside the      *)
(* validity, F10.7 not a number), scales the values and scatters them to   *)
(* its own result - and scattered to the common result.                    *)
(* An element is [level, f, ok]: level -1, 0, 1 below, at, above the       *)
(* boundary, f the F10.7 index (NaN possible), ok the time is valid.       *)
(* The F10.7 index is not given, given once for all, or given per element. *)
(* Checked: each element is written exactly once and has the pointwise     *)
(* value whatever its neighbours are.  All calls are exported and replayed.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen, Indices
QuickIndices == {-1, 0, 2}
DeepIndices == {-1, 2}
VARIABLES elems, given, phase, result, writes
vars == <<elems, given, phase, result, writes>>

NaN == -1
Unset == -2
Element == [level : {-1, 0, 1}, f : Indices, ok : BOOLEAN]

\* field of the two models, different in every element
Source(side, i) == IF side = "below" THEN 10 + i ELSE 1000 + i
Index(i) == CASE given = "none" -> 0 [] given = "scalar" -> elems[1].f [] OTHER -> elems[i].f

Init == /\ elems = <<>> /\ given = "none" /\ phase = "build" /\ result = <<>> /\ writes = <<>>
Grow == /\ phase = "build" /\ Len(elems) < MaxLen
        /\ \E e \in Element : elems' = Append(elems, e)
        /\ UNCHANGED <<given, phase, result, writes>>
Call == /\ phase = "build"
        /\ \E g \in {"none", "scalar", "array"} : (g = "scalar" => elems # <<>>) /\ given' = g
        /\ phase' = "below"
        /\ result' = [i \in DOMAIN elems |-> Unset] /\ writes' = [i \in DOMAIN elems |-> 0]
        /\ UNCHANGED elems

\* indices of the elements of the mask in the order of the elements
RECURSIVE Gather(_, _)
Gather(mask, i) == IF i > Len(elems) THEN <<>>
                   ELSE (IF mask[i] THEN <<i>> ELSE <<>>) \o Gather(mask, i + 1)
\* evaluation of the subset: values in the order of the subset
SubModel(side, idx) ==
  LET good == [k \in DOMAIN idx |-> elems[idx[k]].ok /\ Index(idx[k]) # NaN] IN
  [k \in DOMAIN idx |-> IF good[k] THEN Source(side, idx[k]) * (1 + Index(idx[k])) ELSE NaN]
Scatter(side, mask) ==
  LET idx == Gather(mask, 1)
      values == SubModel(side, idx)
      Position(i) == CHOOSE k \in DOMAIN idx : idx[k] = i IN
  /\ result' = [i \in DOMAIN elems |-> IF mask[i] THEN values[Position(i)] ELSE result[i]]
  /\ writes' = [i \in DOMAIN elems |-> writes[i] + IF mask[i] THEN 1 ELSE 0]
BelowMask == [i \in DOMAIN elems |-> elems[i].level <= 0]
Below == /\ phase = "below" /\ phase' = "above" /\ Scatter("below", BelowMask)
         /\ UNCHANGED <<elems, given>>
Above == /\ phase = "above" /\ phase' = "done"
         /\ Scatter("above", [i \in DOMAIN elems |-> ~BelowMask[i]])
         /\ CSVWrite("%1$s", <<ToJson([elems |-> elems, given |-> given])>>, IOEnv.OUT)
         /\ UNCHANGED <<elems, given>>
Next == Grow \/ Call \/ Below \/ Above
Spec == Init /\ [][Next]_vars

WrittenOnce == phase = "done" => \A i \in DOMAIN elems : writes[i] = 1
Pointwise == phase = "done" => \A i \in DOMAIN elems :
  result[i] = IF ~elems[i].ok \/ Index(i) = NaN THEN NaN
              ELSE (1 + Index(i)) * (IF elems[i].level = 1 THEN 1000 + i ELSE 10 + i)
=============================================================================
