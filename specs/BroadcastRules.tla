--------------------------- MODULE BroadcastRules ---------------------------
(***************************************************************************)
(* Design model of the broadcasting rules over all small shapes of up to   *)
(* three inputs: every value picked exists, every value of every input is  *)
(* used (nothing is truncated), a result does not depend on the order of   *)
(* the inputs, adding a scalar changes nothing and every slice of the      *)
(* result is the result of the slices of the inputs.  Every combination is *)
(* exported and replayed in the functions following the rule.              *)
(***************************************************************************)
EXTENDS Broadcast, TLC, Json, CSV, IOUtils
CONSTANTS Sizes, MaxDim, MaxDim3      \* sizes, dimensions of 1-2 and 3 inputs
VARIABLES rule, shapes, done
vars == <<rule, shapes, done>>

ShapesUpTo(n) == UNION {[1..d -> Sizes] : d \in 0..n}

Init == rule \in Rules /\ done = FALSE /\ shapes = <<>>

Add == /\ ~done /\ Len(shapes) < 3 /\ UNCHANGED <<rule, done>>
       /\ \E s \in ShapesUpTo(IF Len(shapes) = 2 THEN MaxDim3 ELSE MaxDim) :
            /\ Len(shapes) = 2 => \A j \in {1, 2} : Len(shapes[j]) <= MaxDim3
            /\ shapes' = Append(shapes, s)
Done == /\ ~done /\ shapes # <<>> /\ done' = TRUE /\ UNCHANGED <<rule, shapes>>
        /\ CSVWrite("%1$s", <<ToJson([rule |-> rule, shapes |-> shapes,
                                      ok |-> Accepted(rule, shapes)])>>, IOEnv.OUT)
Next == Add \/ Done
Spec == Init /\ [][Next]_vars

Good == done /\ Accepted(rule, shapes)
R == Shape(rule, shapes)
Results == 0..(Size(R) - 1)

Picked(j) == {Pick(rule, shapes, k, j) : k \in Results}
InBounds == Good => \A j \in DOMAIN shapes : Picked(j) \subseteq 0..(Size(shapes[j]) - 1)
NotTruncated == Good /\ Size(R) > 0 =>
  \A j \in DOMAIN shapes : Picked(j) = 0..(Size(shapes[j]) - 1)

Swap(ss, i) == [j \in DOMAIN ss |-> IF j = i THEN ss[i + 1]
                                    ELSE IF j = i + 1 THEN ss[i] ELSE ss[j]]
Symmetric == Good /\ rule \in {"longest", "mutual", "equal", "flat", "numpy"} =>
  \A i \in 1..(Len(shapes) - 1) :
    LET ss == Swap(shapes, i) IN
    /\ Accepted(rule, ss) /\ Shape(rule, ss) = R
    /\ \A k \in Results : Pick(rule, ss, k, i) = Pick(rule, shapes, k, i + 1)

ScalarNeutral == Good /\ rule \in {"longest", "options", "mutual", "refer", "outer", "numpy"} =>
  LET ss == Append(shapes, <<>>) IN
  /\ Accepted(rule, ss) /\ Shape(rule, ss) = R
  /\ \A k \in Results, j \in DOMAIN shapes : Pick(rule, ss, k, j) = Pick(rule, shapes, k, j)

\* the i-th slices along the first dimension of the result
Slices == Good /\ rule \in {"longest", "mutual", "equal", "refer"} /\ R # <<>> =>
  LET ss == [j \in DOMAIN shapes |-> IF shapes[j] = <<>> THEN <<>> ELSE Tail(shapes[j])]
      n == Size(Tail(R)) IN
  /\ Accepted(rule, ss) /\ Shape(rule, ss) = Tail(R)
  /\ \A i \in 0..(R[1] - 1), k \in 0..(n - 1), j \in DOMAIN shapes :
       Pick(rule, shapes, i * n + k, j) =
         Pick(rule, ss, k, j) + (IF shapes[j] = <<>> THEN 0 ELSE i * Size(ss[j]))

\* the rules agree where several of them accept the shapes
Agree == Good => \A other \in {"longest", "mutual", "equal"} :
  (rule \in {"longest", "mutual", "equal"} /\ Accepted(other, shapes)) =>
    /\ Shape(other, shapes) = R
    /\ \A k \in Results, j \in DOMAIN shapes :
         Pick(other, shapes, k, j) = Pick(rule, shapes, k, j)
=============================================================================
