----------------------------- MODULE Gregorian -----------------------------
(* The proleptic Gregorian calendar. Dates are counted from 1970-01-01 = 0.   *)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

\* @type: Seq(Int);
CommonLengths == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysInMonth(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE CommonLengths[m]
YearLength(y) == IF IsLeap(y) THEN 366 ELSE 365

IsDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m)

(* The calendar is defined by its successor function; everything below is     *)
(* checked against it by DayWalk.tla.                                          *)
\* @type: (<<Int, Int, Int>>) => <<Int, Int, Int>>;
NextDate(dt) ==
  IF dt[3] < DaysInMonth(dt[1], dt[2]) THEN <<dt[1], dt[2], dt[3] + 1>>
  ELSE IF dt[2] < 12 THEN <<dt[1], dt[2] + 1, 1>>
  ELSE <<dt[1] + 1, 1, 1>>

(* Days before month m in a common year.                                       *)
\* @type: Seq(Int);
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == Before[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)

(* Number of leap years among the years 0 .. y-1 (negative for y < 0); floor   *)
(* division makes it valid for all y.                                          *)
LeapsBefore(y) == (y + 3) \div 4 - (y + 99) \div 100 + (y + 399) \div 400
DaysBeforeYear(y) == 365 * y + LeapsBefore(y) - 719528

DayNumber(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d - 1

CycleDays == 146097

(* The year holding day number D: a guess that is off by at most one.          *)
YearOf(D) ==
  LET n == D + 719528
      c == n \div CycleDays
      r == n % CycleDays
      g == 400 * c + (400 * r) \div CycleDays
  IN IF D < DaysBeforeYear(g) THEN g - 1
     ELSE IF D >= DaysBeforeYear(g + 1) THEN g + 1
     ELSE g

\* @type: Int => <<Int, Int, Int>>;
DateOf(D) ==
  LET y == YearOf(D)
      k == D - DaysBeforeYear(y)
      g == k \div 31 + 1           \* the month, or the one before it
      m == IF g < 12 /\ k >= DaysBeforeMonth(y, g + 1) THEN g + 1 ELSE g
  IN <<y, m, k - DaysBeforeMonth(y, m) + 1>>

(* Julian day number: days since -4713-11-24 (proleptic Gregorian).            *)
JulianDay(y, m, d) == DayNumber(y, m, d) + 2440588
=============================================================================
