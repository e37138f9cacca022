---------------------------- MODULE MomentProofs ----------------------------
(* What MomentLaws says of date-times and their arithmetic, proved with TLAPS of   *)
(* every moment, every count and every well-formed leap-second table, for days of  *)
(* 86400 seconds and the years 0..9999.                                            *)
EXTENDS MomentLaws, GregorianProofs, LeapProofs, TLAPS

ASSUME Real == SPM = 60 /\ MPH = 60 /\ HPD = 24 /\ MinYear = 0 /\ MaxYear = 9999

Moments == [y : Int, m : Int, d : Int, sod : Int, ns : Int, p : Int]
IsMoment(tab, v) == v \in Moments /\ Exists(tab, v)

LEMMA Units == SPM = 60 /\ MPH = 60 /\ HPD = 24 /\ MPD = 1440 /\ SPD = 86400
  BY Real DEF MPD, SPD

(* Days 0000-01-01 and 9999-12-31.                                                  *)
LEMMA Ends == MinDay = -719528 /\ MaxDay = 2932896
  <1>1. DaysBeforeYear(0) = -719528 /\ DaysBeforeYear(9999) = 2932532 BY DEF DaysBeforeYear, LeapsBefore
  <1>2. DaysBeforeMonth(0, 1) = 0 /\ DaysBeforeMonth(9999, 12) = 334 BY MonthTables DEF DaysBeforeMonth, IsLeap
  <1> QED BY <1>1, <1>2, Real DEF MinDay, MaxDay, DayNumber

(* The days in range are those of the years in range.                               *)
LEMMA DaysOfYears == ASSUME NEW y \in Int, NEW m \in Int, NEW d \in Int, IsDate(y, m, d)
                     PROVE  /\ DayNumber(y, m, d) \in Int
                            /\ InRange(DayNumber(y, m, d)) <=> (y >= 0 /\ y <= 9999)
  <1>1. DaysBeforeYear(0) = -719528 /\ DaysBeforeYear(10000) = 2932897 BY DEF DaysBeforeYear, LeapsBefore
  <1>2. DayNumber(y, m, d) \in Int /\ DaysBeforeYear(y) <= DayNumber(y, m, d) /\ DayNumber(y, m, d) < DaysBeforeYear(y + 1) BY NumberInYear
  <1>3. DaysBeforeYear(y) \in Int /\ DaysBeforeYear(y + 1) \in Int BY YearSteps
  <1>4. y >= 0 => DayNumber(y, m, d) >= MinDay
    <2>1. y > 0 => DaysBeforeYear(0) <= DaysBeforeYear(y)
      <3>1. y > 0 => DaysBeforeYear(0 + 1) <= DaysBeforeYear(y) BY YearsRise
      <3>2. DaysBeforeYear(1) = -719162 /\ 0 + 1 = 1 BY DEF DaysBeforeYear, LeapsBefore
      <3> QED BY <3>1, <3>2, <1>1, <1>3
    <2>2. y = 0 => DaysBeforeYear(0) <= DaysBeforeYear(y) BY <1>3
    <2> QED BY <2>1, <2>2, <1>1, <1>2, <1>3, Ends
  <1>5. y < 0 => DayNumber(y, m, d) < MinDay
    <2>1. y < 0 => DaysBeforeYear(y + 1) <= DaysBeforeYear(0) BY YearsRise
    <2> QED BY <2>1, <1>1, <1>2, <1>3, Ends
  <1>6. y <= 9999 => DayNumber(y, m, d) <= MaxDay
    <2>1. y < 10000 => DaysBeforeYear(y + 1) <= DaysBeforeYear(10000) BY YearsRise
    <2> QED BY <2>1, <1>1, <1>2, <1>3, Ends
  <1>7. y > 9999 => DayNumber(y, m, d) > MaxDay
    <2>1. y > 10000 => DaysBeforeYear(10000) <= DaysBeforeYear(y)
      <3>1. y > 10000 => DaysBeforeYear(10000 + 1) <= DaysBeforeYear(y) BY YearsRise
      <3>2. DaysBeforeYear(10001) = 2933263 /\ 10000 + 1 = 10001 BY DEF DaysBeforeYear, LeapsBefore
      <3> QED BY <3>1, <3>2, <1>1, <1>3
    <2>2. y = 10000 => DaysBeforeYear(10000) <= DaysBeforeYear(y) BY <1>3
    <2> QED BY <2>1, <2>2, <1>1, <1>2, <1>3, Ends
  <1> QED BY <1>2, <1>4, <1>5, <1>6, <1>7, Ends DEF InRange

LEMMA DayLengths == ASSUME NEW tab, IsTable(tab), NEW D \in Int
                    PROVE  Delta(tab, D) \in {-1, 0, 1} /\ DayLength(tab, D) = 86400 + Delta(tab, D) /\ DayLength(tab, D) \in 86399..86401
  BY AccumulatedSmall, Units DEF DayLength

LEMMA MomentTypes == ASSUME NEW tab, NEW v, IsMoment(tab, v), IsTable(tab)
                     PROVE  /\ v.y \in 0..9999 /\ v.m \in 1..12 /\ v.d \in Int /\ v.d >= 1 /\ v.d <= DaysInMonth(v.y, v.m)
                            /\ v.sod \in Int /\ v.sod >= 0 /\ v.sod < DayLength(tab, DayOf(v)) /\ v.sod <= 86400
                            /\ IsDate(v.y, v.m, v.d) /\ DayOf(v) \in Int /\ InRange(DayOf(v))
                            /\ v.y \in Int /\ v.m \in Int
  <1>1. /\ v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ v.sod \in Int
        /\ v.y \in 0..9999 /\ IsDate(v.y, v.m, v.d) /\ v.sod >= 0 /\ v.sod < DayLength(tab, DayOf(v))
    BY Real DEF IsMoment, Moments, Exists
  <1>2. DayOf(v) \in Int /\ InRange(DayOf(v)) BY <1>1, DaysOfYears DEF DayOf
  <1> QED BY <1>1, <1>2, DayLengths DEF IsDate

(* Settling a second of the day that the day may lack.                              *)
LEMMA Settled == ASSUME NEW tab, IsTable(tab), NEW v \in Moments, NEW days \in Int,
                        v.y \in 0..9999, IsDate(v.y, v.m, v.d), v.sod >= 0, v.sod <= 86400
                 PROVE  LET r == Settle(tab, v, days)
                        IN /\ r.ok = TRUE /\ r.cd = days /\ r.v \in Moments /\ r.v.sod + r.cs = v.sod
                           /\ r.v.y = v.y /\ r.v.m = v.m /\ r.v.d = v.d /\ r.v.ns = v.ns /\ r.v.p = v.p
                           /\ r.cs \in 0..2
                           /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(v)) - 1
                           /\ DayOf(r.v) = DayOf(v) /\ Exists(tab, r.v)
                           /\ r = [ok |-> TRUE, v |-> r.v, cd |-> days, cs |-> r.cs]
  <1> DEFINE last == DayLength(tab, DayOf(v)) - 1
             w == [v EXCEPT !.sod = last]
  <1>0. v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ v.sod \in Int /\ DayOf(v) \in Int
    BY DaysOfYears DEF Moments, DayOf
  <1>1. last \in 86398..86400 BY <1>0, DayLengths
  <1>2. DayLength(tab, DayOf(v)) = last + 1 BY <1>0, DayLengths
  <1>3. w \in Moments /\ w.sod = last /\ w.y = v.y /\ w.m = v.m /\ w.d = v.d /\ w.ns = v.ns /\ w.p = v.p
    BY <1>1 DEF Moments
  <1>4. DayOf(w) = DayOf(v) BY <1>3 DEF DayOf
  <1> HIDE DEF w
  <1>5. Settle(tab, v, days) = IF v.sod > last THEN [ok |-> TRUE, v |-> w, cd |-> days, cs |-> v.sod - last]
                               ELSE [ok |-> TRUE, v |-> v, cd |-> days, cs |-> 0] BY DEF Settle, Some, w
  <1> HIDE DEF last
  <1>6. CASE v.sod > last
    <2>1. Settle(tab, v, days) = [ok |-> TRUE, v |-> w, cd |-> days, cs |-> v.sod - last] BY <1>5, <1>6
    <2>2. Exists(tab, w) BY <1>1, <1>2, <1>3, <1>4, Real DEF Exists
    <2> QED BY <2>1, <2>2, <1>0, <1>1, <1>2, <1>3, <1>4, <1>6
  <1>7. CASE ~(v.sod > last)
    <2>1. Settle(tab, v, days) = [ok |-> TRUE, v |-> v, cd |-> days, cs |-> 0] BY <1>5, <1>7
    <2>2. Exists(tab, v) BY <1>0, <1>1, <1>2, <1>7, Real DEF Exists
    <2> QED BY <2>1, <2>2, <1>0
  <1> QED BY <1>6, <1>7

(* Division by the lengths of minutes, hours and years.                             *)
LEMMA MinuteParts == ASSUME NEW s \in Int, s >= 0, s <= 86400, NEW k, k = IF s \div 60 <= 1439 THEN s \div 60 ELSE 1439
                     PROVE  k \in 0..1439 /\ s - 60 * k >= 0 /\ (k < 1439 => s - 60 * k < 60)
  OBVIOUS
LEMMA HourParts == ASSUME NEW k \in 0..1439
                   PROVE  k % 60 \in 0..59 /\ k \div 60 \in 0..23 /\ k = 60 * (k \div 60) + (k % 60)
  OBVIOUS
LEMMA YearParts == ASSUME NEW k \in Int
                   PROVE  k = 12 * (k \div 12) + (k % 12) /\ k % 12 \in 0..11 /\ k \div 12 \in Int
  <1>1. k = 12 * (k \div 12) + (k % 12) OBVIOUS
  <1>2. k % 12 \in 0..11 OBVIOUS
  <1>3. k \div 12 \in Int OBVIOUS
  <1> QED BY <1>1, <1>2, <1>3
LEMMA YearPartsOf == ASSUME NEW y \in Int, NEW m \in 0..11
                     PROVE  (12 * y + m) \div 12 = y /\ (12 * y + m) % 12 = m
  OBVIOUS

(* C02: the fields show the moment.                                                 *)
THEOREM FieldsShow == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                      PROVE  FieldsShowAt(tab, v) /\ FieldsDetermineAt(v)
  <1>1. /\ v.sod \in Int /\ v.sod >= 0 /\ v.sod < DayLength(tab, DayOf(v)) /\ DayOf(v) \in Int BY MomentTypes
  <1>2. Delta(tab, DayOf(v)) \in {-1, 0, 1} /\ DayLength(tab, DayOf(v)) = 86400 + Delta(tab, DayOf(v)) BY <1>1, DayLengths
  <1> DEFINE k == MinuteOfDay(v)
  <1>3. k = (IF v.sod \div 60 <= 1439 THEN v.sod \div 60 ELSE 1439) BY Units DEF MinuteOfDay, Least
  <1>l. v.sod <= 86400 BY <1>1, <1>2
  <1>4. k \in 0..1439 /\ v.sod - 60 * k >= 0 /\ (k < 1439 => v.sod - 60 * k < 60)
    <2> HIDE DEF k
    <2> QED BY <1>1, <1>3, <1>l, MinuteParts
  <1>5. SecondOf(v) = v.sod - 60 * k BY Units DEF SecondOf
  <1>6. MinuteOf(v) = k % 60 /\ HourOf(v) = k \div 60 BY Units DEF MinuteOf, HourOf
  <1>7. MinuteLength(tab, DayOf(v), k) = (IF k = 1439 THEN 60 + Delta(tab, DayOf(v)) ELSE 60) BY Units DEF MinuteLength
  <1>k. MinuteOfDay(v) = k OBVIOUS
  <1> HIDE DEF k
  <1>8. k % 60 \in 0..59 /\ k \div 60 \in 0..23 /\ k = 60 * (k \div 60) + (k % 60) BY <1>4, HourParts
  <1> DEFINE s == SecondOf(v)
             h == HourOf(v)
             i == MinuteOf(v)
  <1>9. s = v.sod - 60 * k /\ i \in 0..59 /\ h \in 0..23 /\ k = 60 * h + i BY <1>5, <1>6, <1>8
  <1>s. SecondOf(v) = s /\ MinuteOf(v) = i /\ HourOf(v) = h OBVIOUS
  <1> HIDE DEF s, h, i
  <1>10. s \in Int /\ s >= 0 /\ v.sod = 60 * k + s BY <1>1, <1>4, <1>9
  <1>11. s < MinuteLength(tab, DayOf(v), k) BY <1>1, <1>2, <1>4, <1>7, <1>9
  <1>12. s >= 60 => k = 1439 /\ Delta(tab, DayOf(v)) = 1 BY <1>2, <1>4, <1>7, <1>9, <1>10, <1>11
  <1>13. s + 60 * (i + 60 * h) = v.sod /\ v.sod = 60 * (60 * h + i) + s BY <1>9, <1>10
  <1>14. FieldsShowAt(tab, v) BY <1>9, <1>10, <1>11, <1>12, <1>13, <1>s, <1>k, Units DEF FieldsShowAt
  <1>15. FieldsDetermineAt(v) BY <1>13, <1>s, Units DEF FieldsDetermineAt
  <1> QED BY <1>14, <1>15

(* A year and month to be settled on, from a moment.                                *)
LEMMA DateSettled ==
  ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW y \in 0..9999, NEW m \in 1..12
  PROVE  LET r == SettleDate(tab, v, y, m)
         IN /\ r.ok = TRUE /\ r.v \in Moments /\ Exists(tab, r.v)
            /\ r.v.y = y /\ r.v.m = m /\ r.v.d = Least(v.d, DaysInMonth(y, m)) /\ r.cd = v.d - r.v.d
            /\ r.v.sod + r.cs = v.sod /\ r.v.ns = v.ns /\ r.v.p = v.p /\ r.cs \in 0..2
            /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1
  <1>1. /\ v \in Moments /\ v.d \in Int /\ v.d >= 1 /\ v.sod \in Int /\ v.sod >= 0 /\ v.sod <= 86400 BY MomentTypes DEF IsMoment
  <1> DEFINE dd == Least(v.d, DaysInMonth(y, m))
             w == WithDate(v, <<y, m, dd>>)
  <1>2. y \in Int /\ m \in Int /\ DaysInMonth(y, m) \in 28..31 BY MonthSteps
  <1>3. dd \in Int /\ dd >= 1 /\ dd <= DaysInMonth(y, m) /\ dd <= v.d BY <1>1, <1>2 DEF Least
  <1> HIDE DEF dd
  <1>4. w \in Moments /\ w.y = y /\ w.m = m /\ w.d = dd /\ w.sod = v.sod /\ w.ns = v.ns /\ w.p = v.p
    BY <1>1, <1>2, <1>3 DEF Moments, WithDate
  <1>5. SettleDate(tab, v, y, m) = Settle(tab, w, v.d - dd) /\ dd = Least(v.d, DaysInMonth(y, m)) BY DEF SettleDate, dd
  <1> HIDE DEF w
  <1>6. IsDate(w.y, w.m, w.d) BY <1>2, <1>3, <1>4 DEF IsDate
  <1>7. v.d - dd \in Int /\ w.y \in 0..9999 /\ w.sod >= 0 /\ w.sod <= 86400 BY <1>1, <1>3, <1>4
  <1> DEFINE r == Settle(tab, w, v.d - dd)
  <1>8. /\ r.ok = TRUE /\ r.cd = v.d - dd /\ r.v \in Moments /\ r.v.sod + r.cs = w.sod
        /\ r.v.y = w.y /\ r.v.m = w.m /\ r.v.d = w.d /\ r.v.ns = w.ns /\ r.v.p = w.p
        /\ r.cs \in 0..2
        /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(w)) - 1
        /\ DayOf(r.v) = DayOf(w) /\ Exists(tab, r.v) BY <1>4, <1>6, <1>7, Settled
  <1>9. SettleDate(tab, v, y, m) = r BY <1>5
  <1> HIDE DEF r
  <1>10. r.v.d = dd /\ r.cd = v.d - r.v.d /\ DayOf(r.v) = DayOf(w) BY <1>4, <1>8
  <1>11. /\ r.ok = TRUE /\ r.v \in Moments /\ Exists(tab, r.v)
         /\ r.v.y = y /\ r.v.m = m /\ r.v.d = Least(v.d, DaysInMonth(y, m)) /\ r.cd = v.d - r.v.d BY <1>4, <1>5, <1>8, <1>10
  <1>12. r.v.sod + r.cs = v.sod /\ r.v.ns = v.ns /\ r.v.p = v.p /\ r.cs \in 0..2 BY <1>4, <1>8
  <1>13. r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1 BY <1>8, <1>10
  <1> QED BY <1>9, <1>11, <1>12, <1>13

(* C06: months turn pages.                                                          *)
LEMMA MonthsGo ==
  ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
  PROVE  LET k == PageOf(v) + n
         IN IF k >= 0 /\ k <= 119999
            THEN /\ AddMonths(tab, v, n) = SettleDate(tab, v, k \div 12, k % 12 + 1)
                 /\ k \div 12 \in 0..9999 /\ k % 12 + 1 \in 1..12
            ELSE AddMonths(tab, v, n) = None
  <1> DEFINE k == PageOf(v) + n
  <1>1. v.y \in 0..9999 /\ v.m \in 1..12 BY MomentTypes
  <1>2. PageOf(v) \in 0..119999 /\ k = 12 * v.y + (v.m - 1) + n BY <1>1 DEF PageOf
  <1>3. AddMonths(tab, v, n) = IF n > 120000 \/ n < -120000 THEN None
                               ELSE IF k \div 12 < 0 \/ k \div 12 > 9999 THEN None
                               ELSE SettleDate(tab, v, k \div 12, k % 12 + 1)
    BY <1>2, Real DEF AddMonths
  <1>4. k \in Int /\ k - n \in 0..119999 BY <1>2
  <1> HIDE DEF k
  <1>5. CASE k >= 0 /\ k <= 119999
    <2>1. k \div 12 \in 0..9999 /\ k % 12 + 1 \in 1..12 /\ ~(n > 120000 \/ n < -120000) BY <1>4, <1>5
    <2> QED BY <1>3, <1>5, <2>1 DEF k
  <1>6. CASE ~(k >= 0 /\ k <= 119999)
    <2>1. k \div 12 < 0 \/ k \div 12 > 9999 BY <1>4, <1>6
    <2> QED BY <1>3, <1>6, <2>1 DEF k
  <1> QED BY <1>5, <1>6

THEOREM Months == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                  PROVE  MonthLawAt(tab, v, n) /\ Sound(tab, v, AddMonths(tab, v, n))
  <1> DEFINE k == PageOf(v) + n
             r == AddMonths(tab, v, n)
  <1>0. PageOf(v) \in Int /\ k \in Int /\ v.d \in Int /\ v.sod \in Int BY MomentTypes DEF PageOf
  <1>1. CASE ~(k >= 0 /\ k <= 119999)
    <2>1. r = None BY <1>1, MonthsGo
    <2>2. r.ok = FALSE BY <2>1 DEF None
    <2>3. ~(PageOf(v) + n >= 12 * MinYear /\ PageOf(v) + n <= 12 * MaxYear + 11) BY <1>1, Real
    <2> QED BY <2>2, <2>3 DEF MonthLawAt, Sound
  <1>2. CASE k >= 0 /\ k <= 119999
    <2>1. /\ r = SettleDate(tab, v, k \div 12, k % 12 + 1)
          /\ k \div 12 \in 0..9999 /\ k % 12 + 1 \in 1..12 BY <1>2, MonthsGo
    <2> DEFINE y == k \div 12
               m == k % 12 + 1
    <2>2. k = 12 * y + m - 1
      <3>1. k = 12 * (k \div 12) + (k % 12) /\ k % 12 \in 0..11 /\ k \div 12 \in Int BY <1>0, YearParts
      <3> HIDE DEF k
      <3> QED BY <3>1
    <2>k. PageOf(v) + n = k OBVIOUS
    <2> HIDE DEF y, m, k, r
    <2>y. y \in 0..9999 /\ m \in 1..12 BY <2>1 DEF y, m
    <2>3. /\ r.ok = TRUE /\ r.v \in Moments /\ Exists(tab, r.v)
          /\ r.v.y = y /\ r.v.m = m /\ r.v.d = Least(v.d, DaysInMonth(y, m)) /\ r.cd = v.d - r.v.d
          /\ r.v.sod + r.cs = v.sod /\ r.v.ns = v.ns /\ r.v.p = v.p /\ r.cs \in 0..2
          /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1
      <3>1. r = SettleDate(tab, v, y, m) BY <2>1 DEF y, m
      <3> QED BY <3>1, <2>y, DateSettled
    <2>4. DaysInMonth(y, m) \in 28..31 BY <2>y, MonthSteps
    <2>5. PageOf(r.v) = k BY <2>3, <2>2 DEF PageOf
    <2>6. r.v.d \in Int /\ r.v.d <= v.d /\ r.v.d + r.cd = v.d /\ (r.cd > 0 => r.v.d = DaysInMonth(r.v.y, r.v.m)) /\ r.cd \in Int /\ r.cd >= 0
      BY <2>3, <2>4, <1>0 DEF Least
    <2>7. PageOf(v) + n >= 12 * MinYear /\ PageOf(v) + n <= 12 * MaxYear + 11 BY <1>2, Real, <2>k
    <2>8. MonthLawAt(tab, v, n) BY <2>3, <2>5, <2>6, <2>7, <2>k DEF MonthLawAt, r
    <2>9. Sound(tab, v, r) BY <2>3, <2>6 DEF Sound
    <2> QED BY <2>8, <2>9 DEF r
  <1> QED BY <1>1, <1>2

THEOREM MonthsCompose == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW a \in Int, NEW b \in Int
                         PROVE  MonthsComposeAt(tab, v, a, b)
  <1> DEFINE r == AddMonths(tab, v, a)
             s == AddMonths(tab, v, a + b)
             u == AddMonths(tab, r.v, b)
  <1> SUFFICES ASSUME r.ok, s.ok PROVE PageOf(u.v) = PageOf(s.v) BY DEF MonthsComposeAt
  <1>1. a + b \in Int /\ PageOf(v) \in Int BY MomentTypes DEF PageOf
  <1>2. MonthLawAt(tab, v, a) /\ MonthLawAt(tab, v, a + b) BY <1>1, Months
  <1>3. PageOf(r.v) = PageOf(v) + a BY <1>2 DEF MonthLawAt
  <1>4. PageOf(s.v) = PageOf(v) + (a + b) /\ PageOf(v) + (a + b) >= 0 /\ PageOf(v) + (a + b) <= 119999
    BY <1>2, Real DEF MonthLawAt
  <1>5. IsMoment(tab, r.v)
    <2>1. PageOf(v) + a >= 0 /\ PageOf(v) + a <= 119999 BY <1>2, Real DEF MonthLawAt
    <2> DEFINE k == PageOf(v) + a
    <2>2. r = SettleDate(tab, v, k \div 12, k % 12 + 1) /\ k \div 12 \in 0..9999 /\ k % 12 + 1 \in 1..12 BY <2>1, MonthsGo
    <2> HIDE DEF k
    <2> QED BY <2>2, DateSettled DEF IsMoment
  <1> HIDE DEF r
  <1>6. MonthLawAt(tab, r.v, b) BY <1>5, Months
  <1>7. PageOf(r.v) + b >= 0 /\ PageOf(r.v) + b <= 119999 BY <1>1, <1>3, <1>4
  <1>8. u.ok /\ PageOf(u.v) = PageOf(r.v) + b BY <1>6, <1>7, Real DEF MonthLawAt
  <1> QED BY <1>1, <1>3, <1>4, <1>8

(* C05: years.                                                                      *)
THEOREM YearsAreMonths == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                          PROVE  AddYears(tab, v, n) = AddMonths(tab, v, 12 * n)
  <1>1. v.y \in 0..9999 /\ v.m \in 1..12 BY MomentTypes
  <1> DEFINE k == PageOf(v) + 12 * n
  <1>i. v.y \in Int /\ v.y + n \in Int /\ v.m - 1 \in 0..11 /\ 12 * n \in Int /\ v.m - 1 + 1 = v.m BY <1>1
  <1>k. k = 12 * (v.y + n) + (v.m - 1) BY <1>1 DEF PageOf
  <1> HIDE DEF k
  <1>2. k \div 12 = v.y + n /\ k % 12 = v.m - 1 BY <1>i, <1>k, YearPartsOf
  <1>o. k >= 0 /\ k <= 119999 <=> v.y + n >= 0 /\ v.y + n <= 9999 BY <1>i, <1>k
  <1>3. IF k >= 0 /\ k <= 119999
        THEN AddMonths(tab, v, 12 * n) = SettleDate(tab, v, k \div 12, k % 12 + 1)
        ELSE AddMonths(tab, v, 12 * n) = None BY <1>i, MonthsGo DEF k
  <1>4. AddYears(tab, v, n) = IF v.y + n < 0 \/ v.y + n > 9999 THEN None ELSE SettleDate(tab, v, v.y + n, v.m) BY Real DEF AddYears
  <1> QED BY <1>i, <1>2, <1>o, <1>3, <1>4

THEOREM Years == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                 PROVE  YearLawAt(tab, v, n) /\ Sound(tab, v, AddYears(tab, v, n))
  <1> DEFINE r == AddYears(tab, v, n)
  <1>0. v.y \in 0..9999 /\ v.m \in 1..12 /\ v.d \in Int /\ v.d >= 1 /\ v.d <= DaysInMonth(v.y, v.m) /\ v.sod \in Int BY MomentTypes
  <1>1. Sound(tab, v, AddYears(tab, v, n))
    <2>1. 12 * n \in Int OBVIOUS
    <2> QED BY <2>1, Months, YearsAreMonths
  <1>2. CASE v.y + n < 0 \/ v.y + n > 9999
    <2>1. r = None BY <1>2, Real DEF AddYears
    <2>2. r.ok = FALSE BY <2>1 DEF None
    <2>3. ~(v.y + n >= MinYear /\ v.y + n <= MaxYear) BY <1>0, <1>2, Real
    <2> QED BY <1>1, <2>2, <2>3, YearsAreMonths DEF YearLawAt
  <1>3. CASE ~(v.y + n < 0 \/ v.y + n > 9999)
    <2> DEFINE y == v.y + n
    <2>1. r = SettleDate(tab, v, y, v.m) /\ y \in 0..9999 BY <1>0, <1>3, Real DEF AddYears
    <2>e. v.y + n >= MinYear /\ v.y + n <= MaxYear /\ y = v.y + n BY <1>0, <1>3, Real
    <2> HIDE DEF r, y
    <2>2. /\ r.ok = TRUE /\ r.v.y = y /\ r.v.m = v.m /\ r.v.d = Least(v.d, DaysInMonth(y, v.m)) /\ r.cd = v.d - r.v.d
          /\ r.v.sod + r.cs = v.sod /\ r.cs \in 0..2 BY <2>1, <1>0, DateSettled
    <2>3. DaysInMonth(y, v.m) = IF v.m = 2 /\ IsLeap(y) THEN 29 ELSE CommonLengths[v.m] BY DEF DaysInMonth
    <2>4. DaysInMonth(v.y, v.m) = IF v.m = 2 /\ IsLeap(v.y) THEN 29 ELSE CommonLengths[v.m] BY DEF DaysInMonth
    <2>5. CommonLengths[v.m] \in 28..31 /\ CommonLengths[2] = 28 BY <1>0, Twelve, MonthTables
    <2>6. r.v.d \in Int /\ r.v.d + r.cd = v.d /\ r.cd \in 0..1 /\ (r.cd > 0 <=> (v.m = 2 /\ v.d = 29 /\ ~IsLeap(y)))
      BY <1>0, <2>2, <2>3, <2>4, <2>5 DEF Least
    <2> QED BY <1>1, <2>2, <2>6, <2>e, YearsAreMonths DEF YearLawAt, r
  <1> QED BY <1>2, <1>3
============================================================================
