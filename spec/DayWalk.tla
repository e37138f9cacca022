------------------------------ MODULE DayWalk ------------------------------
(* The calendar is what you get by crossing off days one at a time. This walk  *)
(* checks that the closed forms of Gregorian.tla (used everywhere else) are    *)
(* exactly that, in both directions, over the walked range.                     *)
EXTENDS Integers, Sequences, Gregorian

CONSTANTS FirstYear, LastYear

VARIABLES n,      \* day number
          date,   \* <<year, month, day>>
          yday    \* day of the year, from 1

vars == <<n, date, yday>>

Init == /\ n = DayNumber(FirstYear, 1, 1)
        /\ date = <<FirstYear, 1, 1>>
        /\ yday = 1

Tomorrow == /\ date # <<LastYear, 12, 31>>
            /\ n' = n + 1
            /\ date' = NextDate(date)
            /\ yday' = IF date'[1] = date[1] THEN yday + 1 ELSE 1

Next == Tomorrow
Spec == Init /\ [][Next]_vars

TypeOK == IsDate(date[1], date[2], date[3])
NumberOfDate == DayNumber(date[1], date[2], date[3]) = n
DateOfNumber == DateOf(n) = date
YearOfNumber == YearOf(n) = date[1]
DayOfYear == /\ yday = DaysBeforeMonth(date[1], date[2]) + date[3]
             /\ yday <= YearLength(date[1])
             /\ (date[2] = 12 /\ date[3] = 31) => yday = YearLength(date[1])
(* The calendar repeats after 400 years.                                         *)
Cycle == DateOf(n + CycleDays) = <<date[1] + 400, date[2], date[3]>>
(* Julian days: two published anchor points.                                     *)
Julian == /\ n = 0 => JulianDay(date[1], date[2], date[3]) = 2440588
          /\ date = <<2000, 1, 1>> => JulianDay(date[1], date[2], date[3]) = 2451545
Anchor == (date = <<1970, 1, 1>>) <=> (n = 0)

ASSUME DayNumber(1970, 1, 1) = 0
ASSUME DayNumber(2000, 3, 1) = 11017
ASSUME DayNumber(0, 1, 1) = -719528 /\ DayNumber(9999, 12, 31) = 2932896
ASSUME (-7) \div 2 = -4 /\ (-7) % 2 = 1 /\ (-1) % 400 = 399
=============================================================================
