------------------------------ MODULE Composer ------------------------------
(***************************************************************************)
(* Design model of a composed time-series: the implementation-shaped       *)
(* algorithm (resolve the overlaps of the listed validity intervals piece  *)
(* by piece, keep the listed priority, evaluate an array of times chunk by *)
(* chunk) against the declarative meaning "the first listed set which is   *)
(* valid at the time".  Every completed behaviour is exported as scenario. *)
(***************************************************************************)
EXTENDS Coeffs, TLC, Json, CSV, IOUtils

MCEnds == {NINF, 0, 2, 4, PINF}
MCTimes == -1..5
MCEndsDeep == {NINF, 0, 2, 4, 6, PINF}
MCTimesDeep == -1..7

CONSTANTS Ends,      \* interval ends (may contain NINF and PINF)
          Times,     \* evaluated times
          MaxParts   \* number of composed sets

VARIABLES phase,     \* "build", "decompose", "eval", "done", "refused"
          list,      \* listed validity intervals
          item,      \* index of the item being inserted
          start,     \* start of the not yet inserted rest of the item
          table,     \* non-overlapping pieces [lo, hi, id], ascending
          comps,     \* pieces in the order of the evaluation
          pending,   \* times not yet evaluated
          result     \* set evaluated at each of the times

vars == <<phase, list, item, start, table, comps, pending, result>>

Intervals == {iv \in Ends \X Ends :
                iv[1] < iv[2] /\ iv[1] # PINF /\ iv[2] # NINF}

FirstMatch(ivs, t) ==
  LET idx == {i \in DOMAIN ivs : Contains(ivs[i], t)}
  IN IF idx = {} THEN NAN ELSE CHOOSE i \in idx : \A j \in idx : i <= j

Init ==
  /\ phase = "build" /\ list = <<>> /\ item = 1 /\ start = 0
  /\ table = <<>> /\ comps = <<>> /\ pending = Times
  /\ result = [t \in Times |-> NAN]

Push(iv) ==
  /\ phase = "build" /\ Len(list) < MaxParts
  /\ list' = Append(list, iv)
  /\ UNCHANGED <<phase, item, start, table, comps, pending, result>>

Refuse ==
  /\ phase = "build" /\ list # <<>> /\ HasGap(list)
  /\ phase' = "refused"
  /\ CSVWrite("%1$s", <<ToJson(list)>>, IOEnv.OUT)
  /\ UNCHANGED <<list, item, start, table, comps, pending, result>>

Compose ==
  /\ phase = "build" /\ list # <<>> /\ ~HasGap(list)
  /\ phase' = "decompose" /\ start' = list[1][1]
  /\ UNCHANGED <<list, item, table, comps, pending, result>>

InsertAt(seq, pos, x) ==  \* pos counted from 0
  SubSeq(seq, 1, pos) \o <<x>> \o SubSeq(seq, pos + 1, Len(seq))

NextItem ==
  IF item < Len(list)
  THEN item' = item + 1 /\ start' = list[item + 1][1] /\ UNCHANGED <<phase, comps>>
  ELSE /\ phase' = "order" /\ UNCHANGED <<item, start, comps>>

Insert ==
  /\ phase = "decompose"
  /\ UNCHANGED <<list, pending, result>>
  /\ LET stop == list[item][2]
         idx == Cardinality({j \in DOMAIN table : table[j][2] <= start})
     IN IF start >= stop THEN table' = table /\ NextItem
        ELSE IF idx = Len(table)
        THEN table' = InsertAt(table, idx, <<start, stop, item>>) /\ NextItem
        ELSE IF table[idx + 1][1] <= start
        THEN /\ table' = table /\ start' = table[idx + 1][2]
             /\ UNCHANGED <<phase, item, comps>>
        ELSE IF table[idx + 1][1] >= stop
        THEN table' = InsertAt(table, idx, <<start, stop, item>>) /\ NextItem
        ELSE /\ table' = InsertAt(table, idx, <<start, table[idx + 1][1], item>>)
             /\ start' = table[idx + 1][2]
             /\ UNCHANGED <<phase, item, comps>>

RECURSIVE ByItem(_, _)
ByItem(tab, k) ==
  IF k > MaxParts THEN <<>>
  ELSE SelectSeq(tab, LAMBDA piece : piece[3] = k) \o ByItem(tab, k + 1)

Order ==
  /\ phase = "order" /\ phase' = "eval"
  /\ comps' = ByItem(table, 1)
  /\ UNCHANGED <<list, item, start, table, pending, result>>

EvalChunk ==
  /\ phase = "eval" /\ comps # <<>>
  /\ LET piece == Head(comps)
         mask == {t \in pending : piece[1] <= t /\ t <= piece[2]}
     IN /\ result' = [t \in Times |-> IF t \in mask THEN piece[3] ELSE result[t]]
        /\ pending' = pending \ mask
  /\ comps' = Tail(comps)
  /\ UNCHANGED <<phase, list, item, start, table>>

Done ==
  /\ phase = "eval" /\ comps = <<>> /\ phase' = "done"
  /\ CSVWrite("%1$s", <<ToJson(list)>>, IOEnv.OUT)
  /\ UNCHANGED <<list, item, start, table, comps, pending, result>>

Next == \/ \E iv \in Intervals : Push(iv)
        \/ Refuse \/ Compose \/ Insert \/ Order \/ EvalChunk \/ Done

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* pieces are ascending, disjoint, and not empty
TableSorted ==
  \A j \in DOMAIN table :
    /\ table[j][1] < table[j][2]
    /\ j > 1 => table[j - 1][2] <= table[j][1]

\* a piece belongs to the first listed item covering it
TableOwned ==
  \A j \in DOMAIN table :
    LET p == table[j] IN
    /\ list[p[3]][1] <= p[1] /\ p[2] <= list[p[3]][2]
    /\ \A i \in 1..(p[3] - 1) : ~(list[i][1] < p[2] /\ p[1] < list[i][2])

\* every processed time got the first listed set which contains it
Evaluated ==
  \A t \in Times : result[t] # NAN => result[t] = FirstMatch(list, t)

Complete ==
  phase = "done" =>
    \A t \in Times : result[t] = FirstMatch(list, t)

\* accepted compositions have no uncovered time between the ends
NoHole ==
  phase \in {"decompose", "order", "eval", "done"} =>
    \A t \in Times : Contains(Hull(list), t) => FirstMatch(list, t) # NAN

\* refused ones do (the grid is fine enough to show every gap)
RealHole ==
  phase = "refused" =>
    \E t \in Times : Contains(Hull(list), t) /\ FirstMatch(list, t) = NAN

\* times evaluated once never change
Monotone == [][\A t \in Times : result[t] # NAN => result'[t] = result[t]]_vars
=============================================================================
