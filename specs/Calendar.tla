------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The civil calendar: Julian until 1582-10-04, Gregorian since            *)
(* 1582-10-15, astronomical numbering of years (a year 0 exists).          *)
(* Days are counted from 2000-01-01 (MJD2000).                             *)
(***************************************************************************)
EXTENDS Integers

Leap(y) == IF y <= 1582 THEN y % 4 = 0
           ELSE y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
\* number of days of the year, the reform removed 10 days of 1582
Days(y) == IF y = 1582 THEN 355 ELSE IF Leap(y) THEN 366 ELSE 365

\* number of leap years in 1..y of the Julian / Gregorian calendar
JulianStart(y) == 365 * (y - 2000) + (y + 3) \div 4 - 487
GregorianStart(y) == 365 * (y - 2000) + (y + 3) \div 4 - (y - 1) \div 100
                     + (y - 1) \div 400 - 485
\* day number of the first of January
Start(y) == IF y <= 1582 THEN JulianStart(y) ELSE GregorianStart(y)

MonthDays(y, m) ==
  CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
    [] m \in {4, 6, 9, 11} -> 30
    [] OTHER -> 31
=============================================================================
