---------------------------- MODULE CalendarWalk ----------------------------
(***************************************************************************)
(* Design model: a walk through the calendar, year by year over the whole  *)
(* range and day by day through selected windows (around the reform, the   *)
(* century leap years, ...).  The closed forms used by the conversions     *)
(* must agree with the plain counting of days.                             *)
(***************************************************************************)
EXTENDS Calendar, Sequences, TLC
CONSTANTS FirstYear, LastYear, Windows
VARIABLES mode, y, m, d, day
vars == <<mode, y, m, d, day>>

\* Anchor: 2000-01-01 is day 0; a year walk starts there in both directions.
Init == \/ mode \in {"up", "down"} /\ y = 2000 /\ m = 1 /\ d = 1 /\ day = 0
        \/ \E w \in Windows : mode = "days" /\ y = w[1] /\ m = 1 /\ d = 1 /\ day = Start(w[1])

Up == /\ mode = "up" /\ y < LastYear
      /\ day' = day + Days(y) /\ y' = y + 1 /\ UNCHANGED <<mode, m, d>>
Down == /\ mode = "down" /\ y > FirstYear
        /\ day' = day - Days(y - 1) /\ y' = y - 1 /\ UNCHANGED <<mode, m, d>>

InWindow(year) == \E w \in Windows : w[1] <= year /\ year <= w[2]
Tick ==
  /\ mode = "days" /\ InWindow(y)
  /\ day' = day + 1 /\ UNCHANGED mode
  /\ IF y = 1582 /\ m = 10 /\ d = 4 THEN d' = 15 /\ UNCHANGED <<y, m>>
     ELSE IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
     ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y
     ELSE d' = 1 /\ m' = 1 /\ y' = y + 1

Next == Up \/ Down \/ Tick
Spec == Init /\ [][Next]_vars

\* the integer algorithm extracting the year (and date) from the day number
FF == LET jd == day + 2451545 IN
     jd + 1401 + (IF jd > 2299160 THEN (((4 * jd + 274277) \div 146097) * 3) \div 4 - 38 ELSE 0)
EE == 4 * FF + 3
HH == 5 * ((EE % 1461) \div 4) + 2
AlgDay == (HH % 153) \div 5 + 1
AlgMonth == ((HH \div 153 + 2) % 12) + 1
AlgYear == EE \div 1461 - 4716 + (14 - AlgMonth) \div 12

StartCounted == (m = 1 /\ d = 1) => day = Start(y)
Extracted == AlgYear = y /\ AlgMonth = m /\ AlgDay = d
Inside == Start(y) <= day /\ day < Start(y + 1)
YearLength == Start(y + 1) - Start(y) = Days(y)
W == {<<-4700, -4690>>, <<-5, 5>>, <<1579, 1604>>, <<1699, 1701>>, <<1895, 1905>>, <<1995, 2025>>, <<2099, 2101>>}
First == -4700
WDeep == {<<-4700, -4600>>, <<-100, 110>>, <<1490, 2410>>}
=============================================================================
