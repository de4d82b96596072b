------------------------------ MODULE SunWalk -------------------------------
(***************************************************************************)
(* Design model of the apparent Sun seen by an observer who waits, corrects*)
(* the clock, travels along the parallel, moves to another latitude,       *)
(* changes the parallax correction or uses the other algorithm.            *)
(* The state of the Sun is followed by increments: the ephemeris time, the *)
(* phase of its motion relative to stars and to the rotating Earth.        *)
(* Checked: the increments agree with the closed form, i.e., what is seen  *)
(* depends on the place, time and correction only and not on the walk, and *)
(* each quantity depends only on what it may depend on.                    *)
(* Units: quarters of day for the time and correction, 1/8 of turn for the *)
(* longitude and hour angle. All walks are exported and replayed.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANT Length
VARIABLES time, clock, east, place, radius, other, ephemeris, hour, walk, before
vars == <<time, clock, east, place, radius, other, ephemeris, hour, walk, before>>
NPlaces == 4

Actions == {<<"again", 0>>, <<"wait", 1>>, <<"wait", 4>>, <<"wait", -2>>, <<"wait", 400>>, <<"correct", 1>>, <<"correct", -2>>,
            <<"shift", 2>>, <<"shift", -4>>, <<"travel", 1>>, <<"travel", -3>>, <<"turn", 1>>, <<"turn", -1>>,
            <<"move", 1>>, <<"move", 3>>, <<"radius", 1>>, <<"other", 1>>}

Seen == [ephemeris |-> ephemeris, hour |-> hour, place |-> place, radius |-> radius]
Init == /\ time = 0 /\ clock = 0 /\ east = 0 /\ place = 0 /\ radius = 0 /\ other = 0
        /\ ephemeris = 0 /\ hour = 4 /\ walk = <<>> /\ before = Seen

Do(a) ==
  LET kind == a[1]
      n == a[2] IN
  /\ walk' = Append(walk, a)
  /\ before' = Seen
  /\ time' = time + (IF kind \in {"wait", "shift"} THEN n ELSE 0)
  /\ clock' = clock + (CASE kind = "correct" -> n [] kind = "shift" -> -n [] OTHER -> 0)
  /\ east' = east + (CASE kind = "travel" -> n [] kind = "turn" -> 8 * n [] OTHER -> 0)
  /\ place' = (place + (IF kind = "move" THEN n ELSE 0)) % NPlaces
  /\ radius' = IF kind = "radius" THEN 1 - radius ELSE radius
  /\ other' = IF kind = "other" THEN 1 - other ELSE other
  \* the Sun moves with the corrected time, the Earth rotates with the time
  /\ ephemeris' = ephemeris + (IF kind \in {"wait", "correct"} THEN n ELSE 0)
  /\ hour' = (hour + (CASE kind \in {"wait", "shift"} -> 2 * n [] kind = "travel" -> n [] OTHER -> 0)) % 8

Next == /\ Len(walk) < Length
        /\ \E a \in Actions : Do(a)
        /\ Len(walk') = Length => CSVWrite("%1$s", <<ToJson([walk |-> walk'])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars

Closed == /\ ephemeris = time + clock
          /\ hour = (2 * time + east + 4) % 8
Last(s) == s[Len(s)]
Separate == walk # <<>> =>
  LET kind == Last(walk)[1]
      Same(f) == Seen[f] = before[f] IN
  /\ kind \in {"again", "turn", "other"} => Seen = before
  /\ kind \in {"shift", "travel", "move", "radius"} => Same("ephemeris")
  /\ kind \in {"correct", "move", "radius"} => Same("hour")
=============================================================================
