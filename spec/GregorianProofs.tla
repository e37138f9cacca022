-------------------------- MODULE GregorianProofs --------------------------
(* The calendar's formulas, proved with TLAPS of all years and all day numbers:   *)
(* day numbers and dates are the same thing, and the day after a day has the       *)
(* number after its number.                                                        *)
EXTENDS Integers, Sequences, Gregorian, TLAPS

LEMMA YearSteps == ASSUME NEW y \in Int
                   PROVE  /\ DaysBeforeYear(y) \in Int /\ YearLength(y) \in {365, 366}
                          /\ DaysBeforeYear(y + 1) = DaysBeforeYear(y) + YearLength(y)
  BY DEF DaysBeforeYear, LeapsBefore, YearLength, IsLeap

LEMMA Quarter == ASSUME NEW a \in Int, NEW b \in Int, a <= b
                 PROVE  a \div 4 <= b \div 4 /\ a \div 4 \in Int /\ b \div 4 \in Int
  OBVIOUS
LEMMA Century == ASSUME NEW a \in Int, NEW b \in Int, a <= b
                 PROVE  b \div 100 - a \div 100 <= b - a /\ a \div 100 \in Int /\ b \div 100 \in Int
  OBVIOUS
LEMMA Cycle == ASSUME NEW a \in Int, NEW b \in Int, a <= b
               PROVE  a \div 400 <= b \div 400 /\ a \div 400 \in Int /\ b \div 400 \in Int
  OBVIOUS
LEMMA YearsRise == ASSUME NEW y \in Int, NEW z \in Int, y < z
                   PROVE  DaysBeforeYear(y + 1) <= DaysBeforeYear(z)
  <1> DEFINE x == y + 1
  <1>1. x \in Int /\ x <= z OBVIOUS
  <1> HIDE DEF x
  <1>2. (x + 3) \div 4 <= (z + 3) \div 4 /\ (x + 3) \div 4 \in Int /\ (z + 3) \div 4 \in Int BY <1>1, Quarter
  <1>3. (z + 99) \div 100 - (x + 99) \div 100 <= z - x /\ (x + 99) \div 100 \in Int /\ (z + 99) \div 100 \in Int
    <2>1. (z + 99) - (x + 99) = z - x /\ z + 99 \in Int /\ x + 99 \in Int /\ x + 99 <= z + 99 BY <1>1
    <2> QED BY <2>1, Century
  <1>4. (x + 399) \div 400 <= (z + 399) \div 400 /\ (x + 399) \div 400 \in Int /\ (z + 399) \div 400 \in Int BY <1>1, Cycle
  <1>5. DaysBeforeYear(x) <= DaysBeforeYear(z) BY <1>1, <1>2, <1>3, <1>4 DEF DaysBeforeYear, LeapsBefore
  <1> QED BY <1>5 DEF x

LEMMA YearFound == ASSUME NEW D \in Int
                   PROVE  /\ YearOf(D) \in Int
                          /\ DaysBeforeYear(YearOf(D)) <= D
                          /\ D < DaysBeforeYear(YearOf(D) + 1)
  BY Z3 DEF YearOf, DaysBeforeYear, LeapsBefore, CycleDays

LEMMA Twelve == \A m \in 1..12 : m = 1 \/ m = 2 \/ m = 3 \/ m = 4 \/ m = 5 \/ m = 6 \/ m = 7 \/ m = 8 \/ m = 9 \/ m = 10 \/ m = 11 \/ m = 12
  OBVIOUS

LEMMA MonthTables ==
  /\ CommonLengths[1] = 31 /\ CommonLengths[2] = 28 /\ CommonLengths[3] = 31 /\ CommonLengths[4] = 30
  /\ CommonLengths[5] = 31 /\ CommonLengths[6] = 30 /\ CommonLengths[7] = 31 /\ CommonLengths[8] = 31
  /\ CommonLengths[9] = 30 /\ CommonLengths[10] = 31 /\ CommonLengths[11] = 30 /\ CommonLengths[12] = 31
  /\ Before[1] = 0 /\ Before[2] = 31 /\ Before[3] = 59 /\ Before[4] = 90
  /\ Before[5] = 120 /\ Before[6] = 151 /\ Before[7] = 181 /\ Before[8] = 212
  /\ Before[9] = 243 /\ Before[10] = 273 /\ Before[11] = 304 /\ Before[12] = 334
  BY DEF CommonLengths, Before

LEMMA MonthSteps == ASSUME NEW y \in Int, NEW m \in 1..12
                    PROVE  /\ DaysInMonth(y, m) \in 28..31 /\ DaysBeforeMonth(y, m) \in 0..335
                           /\ DaysBeforeMonth(y, 1) = 0
                           /\ m < 12 => DaysBeforeMonth(y, m + 1) = DaysBeforeMonth(y, m) + DaysInMonth(y, m)
                           /\ m = 12 => YearLength(y) = DaysBeforeMonth(y, m) + DaysInMonth(y, m)
  BY Twelve, MonthTables DEF DaysInMonth, DaysBeforeMonth, YearLength

LEMMA MonthsRise == ASSUME NEW y \in Int, NEW m \in 1..12, NEW n \in 1..12, m < n
                    PROVE  DaysBeforeMonth(y, m) + DaysInMonth(y, m) <= DaysBeforeMonth(y, n)
  BY Twelve, MonthTables DEF DaysInMonth, DaysBeforeMonth

LEMMA MonthFound == ASSUME NEW y \in Int, NEW k \in Int, 0 <= k, k < YearLength(y)
                    PROVE  LET g == k \div 31 + 1
                               m == IF g < 12 /\ k >= DaysBeforeMonth(y, g + 1) THEN g + 1 ELSE g
                           IN m \in 1..12 /\ DaysBeforeMonth(y, m) <= k /\ k < DaysBeforeMonth(y, m) + DaysInMonth(y, m)
  <1> DEFINE g == k \div 31 + 1
  <1>1. g \in 1..12 /\ 31 * (g - 1) <= k /\ k < 31 * g BY DEF YearLength
  <1> HIDE DEF g
  <1>2. (g < 12 /\ k >= DaysBeforeMonth(y, g + 1)) => DaysBeforeMonth(y, g + 1) <= k /\ k < DaysBeforeMonth(y, g + 1) + DaysInMonth(y, g + 1)
    BY <1>1, Twelve, MonthTables DEF DaysInMonth, DaysBeforeMonth
  <1>3. ~(g < 12 /\ k >= DaysBeforeMonth(y, g + 1)) => DaysBeforeMonth(y, g) <= k /\ k < DaysBeforeMonth(y, g) + DaysInMonth(y, g)
    BY <1>1, Twelve, MonthTables DEF DaysInMonth, DaysBeforeMonth, YearLength
  <1> QED BY <1>1, <1>2, <1>3 DEF g

THEOREM DateOfNumber == ASSUME NEW D \in Int
                        PROVE  LET dt == DateOf(D)
                               IN /\ dt[1] \in Int /\ dt[2] \in Int /\ dt[3] \in Int
                                  /\ dt = <<dt[1], dt[2], dt[3]>>
                                  /\ IsDate(dt[1], dt[2], dt[3])
                                  /\ DayNumber(dt[1], dt[2], dt[3]) = D
  <1> DEFINE y == YearOf(D)
             k == D - DaysBeforeYear(y)
             g == k \div 31 + 1
             m == IF g < 12 /\ k >= DaysBeforeMonth(y, g + 1) THEN g + 1 ELSE g
  <1>1. y \in Int /\ DaysBeforeYear(y) \in Int /\ k \in Int /\ 0 <= k /\ k < YearLength(y) BY YearFound, YearSteps
  <1>2. DateOf(D) = <<y, m, k - DaysBeforeMonth(y, m) + 1>> BY DEF DateOf
  <1> HIDE DEF y
  <1>3. m \in 1..12 /\ DaysBeforeMonth(y, m) <= k /\ k < DaysBeforeMonth(y, m) + DaysInMonth(y, m)
    <2> HIDE DEF k
    <2> QED BY <1>1, MonthFound
  <1> HIDE DEF m, k
  <1>4. DaysBeforeMonth(y, m) \in Int /\ DaysInMonth(y, m) \in Int BY <1>1, <1>3, MonthSteps
  <1> QED BY <1>1, <1>2, <1>3, <1>4 DEF IsDate, DayNumber, k

LEMMA NumberInYear == ASSUME NEW y \in Int, NEW m \in Int, NEW d \in Int, IsDate(y, m, d)
                      PROVE  /\ DayNumber(y, m, d) \in Int
                             /\ DaysBeforeYear(y) <= DayNumber(y, m, d)
                             /\ DayNumber(y, m, d) < DaysBeforeYear(y + 1)
  <1>1. m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m) BY DEF IsDate
  <1>2. DaysBeforeMonth(y, m) \in Int /\ DaysBeforeMonth(y, m) >= 0 /\ DaysInMonth(y, m) \in Int
        /\ DaysBeforeMonth(y, m) + DaysInMonth(y, m) <= YearLength(y)
    <2>1. CASE m = 12 BY <2>1, <1>1, MonthSteps
    <2>2. CASE m < 12 
      <3>1. DaysBeforeMonth(y, m) + DaysInMonth(y, m) <= DaysBeforeMonth(y, 12) BY <1>1, <2>2, MonthsRise
      <3> QED BY <3>1, <1>1, MonthSteps, 12 \in 1..12
    <2> QED BY <2>1, <2>2, <1>1
  <1> QED BY <1>1, <1>2, YearSteps DEF DayNumber

(* Two dates have the same number only if they are the same.                       *)
THEOREM NumbersDiffer ==
  ASSUME NEW y \in Int, NEW m \in Int, NEW d \in Int, IsDate(y, m, d),
         NEW yy \in Int, NEW mm \in Int, NEW dd \in Int, IsDate(yy, mm, dd),
         DayNumber(y, m, d) = DayNumber(yy, mm, dd)
  PROVE  y = yy /\ m = mm /\ d = dd
  <1>1. y = yy
    <2>1. ~(y < yy) BY NumberInYear, YearsRise, YearSteps
    <2>2. ~(yy < y) BY NumberInYear, YearsRise, YearSteps
    <2> QED BY <2>1, <2>2
  <1>2. m \in 1..12 /\ mm \in 1..12 /\ d >= 1 /\ dd >= 1 /\ d <= DaysInMonth(y, m) /\ dd <= DaysInMonth(y, mm) BY <1>1 DEF IsDate
  <1>3. DaysBeforeYear(y) \in Int /\ DaysBeforeMonth(y, m) \in Int /\ DaysBeforeMonth(y, mm) \in Int
        /\ DaysInMonth(y, m) \in Int /\ DaysInMonth(y, mm) \in Int BY <1>2, YearSteps, MonthSteps
  <1>4. DaysBeforeMonth(y, m) + d = DaysBeforeMonth(y, mm) + dd
    <2>1. DayNumber(yy, mm, dd) = DayNumber(y, mm, dd) BY <1>1
    <2>2. DayNumber(y, mm, dd) = DaysBeforeYear(y) + DaysBeforeMonth(y, mm) + dd - 1 BY DEF DayNumber
    <2>3. DayNumber(y, m, d) = DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d - 1 BY DEF DayNumber
    <2> QED BY <2>1, <2>2, <2>3, <1>3
  <1>5. ~(m < mm) BY <1>2, <1>3, <1>4, MonthsRise
  <1>6. ~(mm < m) BY <1>2, <1>3, <1>4, MonthsRise
  <1>7. m = mm BY <1>5, <1>6, <1>2
  <1> QED BY <1>1, <1>7, <1>4, <1>3

THEOREM NumberOfDate == ASSUME NEW y \in Int, NEW m \in Int, NEW d \in Int, IsDate(y, m, d)
                        PROVE  DateOf(DayNumber(y, m, d)) = <<y, m, d>>
  <1> DEFINE dt == DateOf(DayNumber(y, m, d))
  <1>1. DayNumber(y, m, d) \in Int BY NumberInYear
  <1>2. /\ dt[1] \in Int /\ dt[2] \in Int /\ dt[3] \in Int
        /\ dt = <<dt[1], dt[2], dt[3]>>
        /\ IsDate(dt[1], dt[2], dt[3])
        /\ DayNumber(dt[1], dt[2], dt[3]) = DayNumber(y, m, d) BY <1>1, DateOfNumber
  <1> HIDE DEF dt
  <1>3. dt[1] = y /\ dt[2] = m /\ dt[3] = d BY <1>2, NumbersDiffer
  <1> QED BY <1>2, <1>3 DEF dt

(* The successor function, which defines the calendar, counts.                     *)
THEOREM NumberOfNext == ASSUME NEW y \in Int, NEW m \in Int, NEW d \in Int, IsDate(y, m, d)
                        PROVE  LET dt == NextDate(<<y, m, d>>)
                               IN /\ dt[1] \in Int /\ dt[2] \in Int /\ dt[3] \in Int
                                  /\ IsDate(dt[1], dt[2], dt[3])
                                  /\ DayNumber(dt[1], dt[2], dt[3]) = DayNumber(y, m, d) + 1
  <1>1. m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m) BY DEF IsDate
  <1>2. DaysBeforeYear(y) \in Int /\ DaysBeforeMonth(y, m) \in Int /\ DaysInMonth(y, m) \in Int /\ y + 1 \in Int
        /\ DaysBeforeMonth(y + 1, 1) = 0 BY <1>1, YearSteps, MonthSteps
  <1>3. CASE d < DaysInMonth(y, m)
    BY <1>1, <1>2, <1>3 DEF NextDate, IsDate, DayNumber
  <1>4. CASE d = DaysInMonth(y, m) /\ m < 12
    <2>1. m + 1 \in 1..12 /\ DaysInMonth(y, m + 1) \in 28..31 /\ DaysBeforeMonth(y, m + 1) = DaysBeforeMonth(y, m) + DaysInMonth(y, m)
      BY <1>1, <1>4, MonthSteps
    <2> QED BY <1>1, <1>2, <1>4, <2>1 DEF NextDate, IsDate, DayNumber
  <1>5. CASE d = DaysInMonth(y, m) /\ m = 12
    <2>1. DaysInMonth(y + 1, 1) \in 28..31 BY <1>2, MonthSteps, 1 \in 1..12
    <2>2. DaysBeforeYear(y + 1) = DaysBeforeYear(y) + DaysBeforeMonth(y, 12) + DaysInMonth(y, 12) BY YearSteps, MonthSteps, <1>1, <1>5
    <2> QED BY <1>1, <1>2, <1>5, <2>1, <2>2 DEF NextDate, IsDate, DayNumber
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5
============================================================================
