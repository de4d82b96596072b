----------------------------- MODULE FieldWalk -----------------------------
(***************************************************************************)
(* Design model of the field line tracing on a line of radial levels:      *)
(* sign[k] is the direction of the field at the level k (outwards, none,   *)
(* inwards).  The tracer walks from the start along and against the field, *)
(* each walk is a loop of at most maxsteps steps left once a level at or   *)
(* beyond a limit is reached; the points and fields of the walk against    *)
(* the field are reversed and joined without the start.                    *)
(* Checked: the result is the ordered walk through the start, complete and *)
(* not longer than the limits allow.  All configurations are exported and  *)
(* replayed with a model having such a field.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Steps
Levels == (-Depth)..Depth
VARIABLES sign, low, high, maxsteps, phase, point, points, fields, down, downfields, result, resfields
vars == <<sign, low, high, maxsteps, phase, point, points, fields, down, downfields, result, resfields>>

Sign(k) == IF k \in Levels THEN sign[k] ELSE 0
Beyond(k) == k <= low \/ k >= high
Init == /\ sign \in [Levels -> {-1, 0, 1}] /\ low \in (-Depth)..0 /\ high \in 0..Depth
        /\ maxsteps \in Steps
        /\ phase = "down" /\ point = 0 /\ points = <<0>> /\ fields = <<>>
        /\ down = <<>> /\ downfields = <<>> /\ result = <<>> /\ resfields = <<>>

Direction == IF phase = "down" THEN 1 ELSE -1
Leave == Len(points) > maxsteps \/ (Len(points) > 1 /\ Beyond(point))
Step == /\ phase \in {"down", "up"} /\ ~Leave
        /\ fields' = Append(fields, Sign(point))
        /\ point' = point + Direction * Sign(point)
        /\ points' = Append(points, point')
        /\ UNCHANGED <<sign, low, high, maxsteps, phase, down, downfields, result, resfields>>
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* all but the last item
Front(s) == SubSeq(s, 1, Len(s) - 1)
Turn == /\ phase = "down" /\ Leave /\ phase' = "up"
        /\ down' = points /\ downfields' = Append(fields, Sign(point))
        /\ point' = 0 /\ points' = <<0>> /\ fields' = <<>>
        /\ UNCHANGED <<sign, low, high, maxsteps, result, resfields>>
Join == /\ phase = "up" /\ Leave /\ phase' = "done"
        /\ result' = Front(Reverse(points)) \o down
        /\ resfields' = Front(Reverse(Append(fields, Sign(point)))) \o downfields
        /\ CSVWrite("%1$s", <<ToJson([sign |-> [i \in 1..(2 * Depth + 1) |-> sign[i - Depth - 1]],
                                     low |-> low, high |-> high, steps |-> maxsteps])>>, IOEnv.OUT)
        /\ UNCHANGED <<sign, low, high, maxsteps, point, points, fields, down, downfields>>
Next == Step \/ Turn \/ Join
Spec == Init /\ [][Next]_vars

\* the properties of the result, s is the index of the start
Walk(s) ==
  LET n == Len(result) IN
  /\ result[s] = 0
  /\ \A i \in s..(n - 1) : result[i + 1] = result[i] + Sign(result[i])
  /\ \A i \in 2..s : result[i - 1] = result[i] - Sign(result[i])
  /\ \A i \in 2..(n - 1) : i # s => ~Beyond(result[i])
  /\ n - s <= maxsteps /\ s - 1 <= maxsteps
  /\ (n - s < maxsteps => n > s /\ Beyond(result[n]))
  /\ (s - 1 < maxsteps => s > 1 /\ Beyond(result[1]))
Ordered == phase = "done" => /\ \E s \in DOMAIN result : Walk(s)
                             /\ Len(resfields) = Len(result)
                             /\ \A i \in DOMAIN result : resfields[i] = Sign(result[i])
=============================================================================
