----------------------------- MODULE SolarDays -----------------------------
(***************************************************************************)
(* Design model of the calendar arithmetic of the sub-solar point: a clock *)
(* walks day by day through the supported years counting the days, the     *)
(* civil date and the day of the year, as a reference of the day number    *)
(* (days since 2000-01-01) calculated from the year and the day of the     *)
(* year by the truncating integer formulas of SUBSOL.                      *)
(* The days around the starts of years and months and around the leap days *)
(* are exported and replayed.                                              *)
(***************************************************************************)
EXTENDS Calendar, Sequences, TLC, CSV, IOUtils
CONSTANTS Starts, Years
DeepStarts == {1601}
VARIABLES day, y, m, d, doy, left
vars == <<day, y, m, d, doy, left>>

\* the leap days between 2000 and the year as calculated by the code;
\* the division truncates, all operands are positive
Leaps(year) == ((year - 1601) \div 4) - 99
               + IF year <= 1900 THEN 3 - ((year - 1601) \div 100) ELSE 0
\* days since 2000-01-01
Number(year, n) == 365 * (year - 2000) + Leaps(year) + n - 1

Export(t) == CSVWrite("%1$s", <<ToString(t)>>, IOEnv.OUT)
Edge(mm, dd) == dd = 1 \/ (mm = 2 /\ dd >= 28) \/ dd >= 30
Init == \E s \in Starts : /\ y = s /\ day = Start(s) /\ m = 1 /\ d = 1 /\ doy = 1 /\ left = Years
Next == /\ left > 0
        /\ day' = day + 1
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y, left>> /\ doy' = doy + 1
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED <<y, left>> /\ doy' = doy + 1
                   ELSE m' = 1 /\ y' = y + 1 /\ left' = left - 1 /\ doy' = 1
        /\ Edge(m', d') => Export(day')
Spec == Init /\ [][Next]_vars

Consistent == left > 0 => /\ Number(y, doy) = day
                          /\ doy = day - Start(y) + 1
                          /\ doy \in 1..Days(y)
=============================================================================
