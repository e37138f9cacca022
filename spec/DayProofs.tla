----------------------------- MODULE DayProofs -----------------------------
(* MomentProofs continued: moving by days, minutes and hours.                      *)
EXTENDS MomentProofs

(* Changing a moment's date to that of a day in range.                              *)
LEMMA Dated == ASSUME NEW v \in Moments, NEW D \in Int, InRange(D)
               PROVE  LET w == WithDate(v, DateOf(D))
                      IN /\ w \in Moments /\ w.y \in 0..9999 /\ w.m \in Int /\ w.d \in Int
                         /\ IsDate(w.y, w.m, w.d) /\ DayOf(w) = D
                         /\ w.sod = v.sod /\ w.ns = v.ns /\ w.p = v.p
                         /\ DateIn(w) = DateOf(D)
  <1> DEFINE dt == DateOf(D)
  <1>1. /\ dt[1] \in Int /\ dt[2] \in Int /\ dt[3] \in Int
        /\ dt = <<dt[1], dt[2], dt[3]>>
        /\ IsDate(dt[1], dt[2], dt[3])
        /\ DayNumber(dt[1], dt[2], dt[3]) = D BY DateOfNumber
  <1>2. dt[1] \in 0..9999
    <2> HIDE DEF dt
    <2>1. InRange(DayNumber(dt[1], dt[2], dt[3])) BY <1>1
    <2> QED BY <1>1, <2>1, DaysOfYears
  <1> HIDE DEF dt
  <1> DEFINE w == WithDate(v, dt)
  <1>3. w \in Moments /\ w.y = dt[1] /\ w.m = dt[2] /\ w.d = dt[3] /\ w.sod = v.sod /\ w.ns = v.ns /\ w.p = v.p
    BY <1>1 DEF Moments, WithDate
  <1> HIDE DEF w
  <1>4. DayOf(w) = D /\ DateIn(w) = dt BY <1>1, <1>3 DEF DayOf, DateIn
  <1>5. w = WithDate(v, DateOf(D)) BY DEF w, dt
  <1>6. IsDate(w.y, w.m, w.d) /\ w.y \in 0..9999 /\ w.m \in Int /\ w.d \in Int BY <1>1, <1>2, <1>3
  <1> QED BY <1>3, <1>4, <1>5, <1>6 DEF dt

(* C07: days go by number.                                                          *)
THEOREM Days == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                PROVE  DayLawAt(tab, v, n) /\ Sound(tab, v, AddDays(tab, v, n))
  <1> DEFINE D == DayOf(v) + n
             r == AddDays(tab, v, n)
  <1>0. DayOf(v) \in Int /\ InRange(DayOf(v)) /\ D \in Int /\ v.sod \in Int /\ v.sod >= 0 /\ v.sod <= 86400 /\ v \in Moments
    BY MomentTypes DEF IsMoment
  <1>1. CASE ~InRange(D)
    <2>1. r = None BY <1>1 DEF AddDays
    <2>2. r.ok = FALSE BY <2>1 DEF None
    <2>3. ~(DayOf(v) + n >= MinDay /\ DayOf(v) + n <= MaxDay) BY <1>1 DEF InRange
    <2> QED BY <2>2, <2>3 DEF DayLawAt, Sound
  <1>2. CASE InRange(D)
    <2> DEFINE w == WithDate(v, DateOf(D))
    <2>1. ~(n > MaxDay - MinDay \/ n < MinDay - MaxDay) BY <1>0, <1>2, Ends DEF InRange
    <2>2. r = Settle(tab, w, 0) BY <1>2, <2>1 DEF AddDays
    <2>3. DayOf(v) + n >= MinDay /\ DayOf(v) + n <= MaxDay /\ D = DayOf(v) + n BY <1>2 DEF InRange
    <2> HIDE DEF r, D
    <2>4. /\ w \in Moments /\ w.y \in 0..9999 /\ IsDate(w.y, w.m, w.d) /\ DayOf(w) = D
          /\ w.sod = v.sod /\ w.ns = v.ns /\ w.p = v.p BY <1>0, <1>2, Dated
    <2> HIDE DEF w
    <2>5. /\ r.ok = TRUE /\ r.cd = 0 /\ r.v \in Moments /\ r.v.sod + r.cs = w.sod
          /\ r.v.ns = w.ns /\ r.v.p = w.p /\ r.cs \in 0..2
          /\ DayOf(r.v) = DayOf(w) /\ Exists(tab, r.v)
      BY <1>0, <2>2, <2>4, Settled
    <2>6. r.cs > 0 => r.v.sod = DayLength(tab, DayOf(w)) - 1 BY <1>0, <2>2, <2>4, Settled
    <2>7. DayLawAt(tab, v, n) BY <2>3, <2>4, <2>5, <2>6 DEF DayLawAt, r
    <2>8. Sound(tab, v, r) BY <2>4, <2>5 DEF Sound
    <2> QED BY <2>7, <2>8 DEF r
  <1> QED BY <1>1, <1>2

LEMMA MovedTypes == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int, AddDays(tab, v, n).ok
                    PROVE  IsMoment(tab, AddDays(tab, v, n).v)
  <1> DEFINE D == DayOf(v) + n
             r == AddDays(tab, v, n)
             w == WithDate(v, DateOf(D))
  <1>0. DayOf(v) \in Int /\ D \in Int /\ v.sod \in Int /\ v.sod >= 0 /\ v.sod <= 86400 /\ v \in Moments
    BY MomentTypes DEF IsMoment
  <1>1. r # None BY DEF None
  <1>2. r = Settle(tab, w, 0) /\ InRange(D) BY <1>1 DEF AddDays
  <1> HIDE DEF r, D
  <1>3. w \in Moments /\ w.y \in 0..9999 /\ IsDate(w.y, w.m, w.d) /\ w.sod = v.sod BY <1>0, <1>2, Dated
  <1> HIDE DEF w
  <1>4. r.v \in Moments /\ Exists(tab, r.v) BY <1>0, <1>2, <1>3, Settled
  <1> QED BY <1>4 DEF IsMoment, r

THEOREM DaysCompose == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW a \in Int, NEW b \in Int
                       PROVE  DaysComposeAt(tab, v, a, b)
  <1> DEFINE r == AddDays(tab, v, a)
             s == AddDays(tab, v, a + b)
             u == AddDays(tab, r.v, b)
  <1> SUFFICES ASSUME r.ok PROVE (u.ok <=> s.ok) /\ (u.ok => DateIn(u.v) = DateIn(s.v)) BY DEF DaysComposeAt
  <1>1. a + b \in Int /\ DayOf(v) \in Int BY MomentTypes
  <1>2. DayLawAt(tab, v, a) /\ DayLawAt(tab, v, a + b) /\ Sound(tab, v, r) /\ Sound(tab, v, s) BY <1>1, Days
  <1>3. DayOf(r.v) = DayOf(v) + a BY <1>2 DEF DayLawAt
  <1>4. s.ok <=> (DayOf(v) + (a + b) >= MinDay /\ DayOf(v) + (a + b) <= MaxDay) BY <1>2 DEF DayLawAt
  <1>5. s.ok => DayOf(s.v) = DayOf(v) + (a + b) BY <1>2 DEF DayLawAt
  <1>6. IsMoment(tab, r.v) BY MovedTypes
  <1>7. s.ok => IsMoment(tab, s.v) BY <1>1, MovedTypes
  <1> HIDE DEF r, s
  <1>8. DayLawAt(tab, r.v, b) BY <1>6, Days
  <1>9. u.ok <=> (DayOf(r.v) + b >= MinDay /\ DayOf(r.v) + b <= MaxDay) BY <1>8 DEF DayLawAt
  <1>10. u.ok => DayOf(u.v) = DayOf(r.v) + b BY <1>8 DEF DayLawAt
  <1>11. u.ok => IsMoment(tab, u.v) BY <1>6, MovedTypes
  <1>12. DayOf(r.v) + b = DayOf(v) + (a + b) BY <1>1, <1>3
  <1> HIDE DEF u
  <1>13. u.ok <=> s.ok BY <1>4, <1>9, <1>12
  <1>14. u.ok => DateIn(u.v) = DateIn(s.v)
    <2> SUFFICES ASSUME u.ok PROVE DateIn(u.v) = DateIn(s.v) OBVIOUS
    <2>1. DayOf(u.v) = DayOf(s.v) BY <1>5, <1>10, <1>12, <1>13
    <2>2. /\ IsDate(u.v.y, u.v.m, u.v.d) /\ u.v.y \in Int /\ u.v.m \in Int /\ u.v.d \in Int
          /\ IsDate(s.v.y, s.v.m, s.v.d) /\ s.v.y \in Int /\ s.v.m \in Int /\ s.v.d \in Int
      BY <1>7, <1>11, <1>13, MomentTypes
    <2>3. DayNumber(u.v.y, u.v.m, u.v.d) = DayNumber(s.v.y, s.v.m, s.v.d) BY <2>1 DEF DayOf
    <2>4. u.v.y = s.v.y /\ u.v.m = s.v.m /\ u.v.d = s.v.d BY <2>2, <2>3, NumbersDiffer
    <2> QED BY <2>4 DEF DateIn
  <1> QED BY <1>13, <1>14

(* C08: minutes and hours, on a clock face without leap seconds.                    *)
LEMMA Carried == ASSUME NEW x \in Int, NEW y \in Int, NEW z \in Int, NEW u \in Int, NEW g \in Int, 1440 * z + u = g + y
                 PROVE  (x + z) * 1440 + u = x * 1440 + g + y
  OBVIOUS
LEMMA FaceParts == ASSUME NEW d \in Int, NEW k \in 0..1439, NEW n \in Int
                   PROVE  LET q == k + (n % 1440)
                              D == d + (n \div 1440) + (q \div 1440)
                          IN /\ D \in Int /\ q % 1440 \in 0..1439 /\ n \div 1440 \in Int
                             /\ D * 1440 + (q % 1440) = d * 1440 + k + n
                             /\ D - (d + (n \div 1440)) \in 0..1
  <1>1. n = 1440 * (n \div 1440) + (n % 1440) /\ n % 1440 \in 0..1439 OBVIOUS
  <1>t. n \div 1440 \in Int OBVIOUS
  <1> DEFINE a == n \div 1440
             b == n % 1440
  <1>2. n = 1440 * a + b /\ b \in 0..1439 /\ a \in Int BY <1>1, <1>t
  <1> HIDE DEF a, b
  <1> DEFINE q == k + b
  <1>3. q \in 0..2878 BY <1>2
  <1>q. q = k + b OBVIOUS
  <1> HIDE DEF q
  <1>4. q = 1440 * (q \div 1440) + (q % 1440) /\ q % 1440 \in 0..1439 /\ q \div 1440 \in 0..1 BY <1>3
  <1> DEFINE e == q \div 1440
             f == q % 1440
  <1>e. q = 1440 * e + f /\ f \in 0..1439 /\ e \in 0..1 /\ e = q \div 1440 /\ f = q % 1440 BY <1>4
  <1> HIDE DEF e, f
  <1> DEFINE D == d + a + e
  <1>5. D \in Int /\ D * 1440 + f = d * 1440 + k + n /\ D - (d + a) \in 0..1
    <2>3. D \in Int /\ D - (d + a) = e BY <1>2, <1>e
    <2>4. D * 1440 + f = (d + a) * 1440 + k + b
      <3>1. d + a \in Int /\ 1440 * e + f = k + b BY <1>2, <1>e, <1>q
      <3> HIDE DEF D
      <3>2. D = (d + a) + e BY DEF D
      <3> QED BY <3>1, <3>2, Carried, <1>2, <1>e
    <2>5. (d + a) * 1440 = d * 1440 + a * 1440 BY <1>2
    <2>6. a * 1440 \in Int /\ d * 1440 \in Int /\ a * 1440 + b = n BY <1>2
    <2> QED BY <1>2, <1>e, <2>3, <2>4, <2>5, <2>6
  <1> QED BY <1>2, <1>e, <1>5 DEF a, b, q

(* A second on the face put there is shown there.                                   *)
LEMMA FaceBack == ASSUME NEW tab, IsTable(tab), NEW w \in Moments, DayOf(w) \in Int, NEW k \in 0..1439, NEW s \in Int,
                         s >= 0, s < MinuteLength(tab, DayOf(w), k), w.sod = 60 * k + s
                  PROVE  /\ MinuteOfDay(w) = k /\ SecondOf(w) = s
                         /\ w.sod >= 0 /\ w.sod < DayLength(tab, DayOf(w))
  <1>1. Delta(tab, DayOf(w)) \in {-1, 0, 1} /\ DayLength(tab, DayOf(w)) = 86400 + Delta(tab, DayOf(w)) BY DayLengths
  <1>2. MinuteLength(tab, DayOf(w), k) = (IF k = 1439 THEN 60 + Delta(tab, DayOf(w)) ELSE 60) BY Units DEF MinuteLength
  <1>3. w.sod \in Int /\ (k < 1439 => s < 60) /\ s <= 60 BY <1>1, <1>2
  <1>4. (IF w.sod \div 60 <= 1439 THEN w.sod \div 60 ELSE 1439) = k
    <2> DEFINE x == w.sod
    <2>1. x = 60 * k + s OBVIOUS
    <2> HIDE DEF x
    <2>2. (IF x \div 60 <= 1439 THEN x \div 60 ELSE 1439) = k BY <1>3, <2>1
    <2> QED BY <2>2 DEF x
  <1>5. MinuteOfDay(w) = k BY <1>4, Units DEF MinuteOfDay, Least
  <1>6. SecondOf(w) = s BY <1>5, <1>3, Units DEF SecondOf
  <1>7. w.sod >= 0 /\ w.sod < DayLength(tab, DayOf(w)) BY <1>1, <1>2, <1>3
  <1> QED BY <1>5, <1>6, <1>7

LEMMA Face == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
              PROVE  /\ MinuteOfDay(v) \in 0..1439 /\ SecondOf(v) \in Int /\ SecondOf(v) >= 0 /\ SecondOf(v) <= 60
                     /\ FaceOf(v) = DayOf(v) * 1440 + MinuteOfDay(v)
  <1>1. FieldsShowAt(tab, v) BY FieldsShow
  <1>2. v.sod \in Int /\ v.sod >= 0 /\ v.sod <= 86400 /\ DayOf(v) \in Int BY MomentTypes
  <1>3. MinuteOfDay(v) = (IF v.sod \div 60 <= 1439 THEN v.sod \div 60 ELSE 1439) BY Units DEF MinuteOfDay, Least
  <1>4. MinuteOfDay(v) \in 0..1439
    <2> DEFINE k == MinuteOfDay(v)
    <2> HIDE DEF k
    <2>1. k = (IF v.sod \div 60 <= 1439 THEN v.sod \div 60 ELSE 1439) BY <1>3 DEF k
    <2>2. k \in 0..1439 BY <1>2, <2>1, MinuteParts
    <2> QED BY <2>2 DEF k
  <1>5. SecondOf(v) >= 0 /\ SecondOf(v) < MinuteLength(tab, DayOf(v), MinuteOfDay(v)) BY <1>1 DEF FieldsShowAt
  <1>6. MinuteLength(tab, DayOf(v), MinuteOfDay(v)) \in 59..61 BY <1>2, DayLengths, Units DEF MinuteLength
  <1>7. SecondOf(v) \in Int BY <1>2, <1>4, Units DEF SecondOf
  <1>8. SecondOf(v) <= 60 BY <1>5, <1>6, <1>7
  <1> QED BY <1>4, <1>5, <1>7, <1>8, Units DEF FaceOf

THEOREM Minutes == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                   PROVE  MinuteLawAt(tab, v, n) /\ Sound(tab, v, AddM(tab, v, n))
  <1> DEFINE r == AddM(tab, v, n)
             days == n \div 1440
             q == MinuteOfDay(v) + (n % 1440)
             D == DayOf(v) + days + (q \div 1440)
             k == q % 1440
             s == SecondOf(v)
             last == MinuteLength(tab, D, k) - 1
             sec == Least(s, last)
             w == WithDate(v, DateOf(D))
             u == [w EXCEPT !.sod = 60 * k + sec]
  <1>0. DayOf(v) \in Int /\ InRange(DayOf(v)) /\ v \in Moments BY MomentTypes DEF IsMoment
  <1>1. MinuteOfDay(v) \in 0..1439 /\ s \in Int /\ s >= 0 /\ s <= 60 /\ FaceOf(v) = DayOf(v) * 1440 + MinuteOfDay(v) BY Face
  <1>2. D \in Int /\ k \in 0..1439 /\ days \in Int /\ D * 1440 + k = FaceOf(v) + n /\ D - (DayOf(v) + days) \in 0..1
    BY <1>0, <1>1, FaceParts
  <1>3. r = IF TooFar(days) THEN None
            ELSE IF ~InRange(D) THEN None
            ELSE [ok |-> TRUE, v |-> u, cd |-> 0, cs |-> s - sec]
    BY Units DEF AddM, AddMinutes, Some
  <1>4. sec = Least(s, last) /\ last = MinuteLength(tab, D, k) - 1 /\ s = SecondOf(v) OBVIOUS
  <1>w. w = WithDate(v, DateOf(D)) /\ u = [w EXCEPT !.sod = 60 * k + sec] OBVIOUS
  <1>r. r = AddM(tab, v, n) OBVIOUS
  <1> HIDE DEF r, days, q, D, k, s, last, sec, w, u
  <1>5. TooFar(days) => ~InRange(D) BY <1>0, <1>2, Ends DEF TooFar, InRange
  <1>6. InRange(D) <=> (FaceOf(v) + n >= MinDay * MPD /\ FaceOf(v) + n < (MaxDay + 1) * MPD)
    BY <1>2, Ends, Units DEF InRange
  <1>7. CASE ~InRange(D)
    <2>1. r = None BY <1>3, <1>7
    <2>2. r.ok = FALSE BY <2>1 DEF None
    <2> QED BY <2>2, <1>6, <1>7, <1>r DEF MinuteLawAt, Sound
  <1>8. CASE InRange(D)
    <2>1. r = [ok |-> TRUE, v |-> u, cd |-> 0, cs |-> s - sec] BY <1>3, <1>5, <1>8
    <2>2. last \in 58..60 BY <1>2, <1>4, DayLengths, Units DEF MinuteLength
    <2>3. sec \in Int /\ sec >= 0 /\ sec <= last /\ sec <= s /\ (s - sec > 0 => sec = last) BY <1>1, <1>4, <2>2 DEF Least
    <2>4. w \in Moments /\ w.y \in 0..9999 /\ IsDate(w.y, w.m, w.d) /\ DayOf(w) = D /\ w.ns = v.ns /\ w.p = v.p
      BY <1>0, <1>2, <1>8, <1>w, Dated
    <2>5. u \in Moments /\ u.sod = 60 * k + sec /\ u.y = w.y /\ u.m = w.m /\ u.d = w.d /\ u.ns = v.ns /\ u.p = v.p
      BY <1>2, <1>w, <2>3, <2>4 DEF Moments
    <2>6. DayOf(u) = D BY <2>4, <2>5 DEF DayOf
    <2>7. sec < MinuteLength(tab, DayOf(u), k)
      <3>1. MinuteLength(tab, DayOf(u), k) \in Int BY <1>2, <2>6, DayLengths, Units DEF MinuteLength
      <3>2. last = MinuteLength(tab, DayOf(u), k) - 1 BY <1>4, <2>6
      <3> QED BY <2>2, <2>3, <3>1, <3>2
    <2>8. /\ MinuteOfDay(u) = k /\ SecondOf(u) = sec
          /\ u.sod >= 0 /\ u.sod < DayLength(tab, DayOf(u)) BY <1>2, <2>3, <2>5, <2>6, <2>7, FaceBack
    <2>9. FaceOf(u) = FaceOf(v) + n BY <1>2, <2>6, <2>8, Units DEF FaceOf
    <2>10. r.ok = TRUE /\ r.v = u /\ r.cd = 0 /\ r.cs = s - sec BY <2>1
    <2>11. Exists(tab, u) BY <2>4, <2>5, <2>8, Real DEF Exists
    <2>12. r.cs > 0 => SecondOf(u) = MinuteLength(tab, DayOf(u), MinuteOfDay(u)) - 1 BY <1>4, <2>3, <2>6, <2>8, <2>10
    <2>13. SecondOf(u) + r.cs = SecondOf(v) /\ r.cs >= 0 BY <1>1, <1>4, <2>3, <2>8, <2>10
    <2>14. MinuteLawAt(tab, v, n) BY <1>6, <1>8, <1>r, <2>9, <2>10, <2>12, <2>13 DEF MinuteLawAt
    <2>15. Sound(tab, v, r) BY <2>5, <2>10, <2>11, <2>13 DEF Sound
    <2> QED BY <2>14, <2>15, <1>r
  <1> QED BY <1>7, <1>8

(* Hours are sixty minutes each.                                                    *)
THEOREM Hours == ASSUME NEW tab, NEW v, NEW n \in Int PROVE HourLawAt(tab, v, n)
  <1>1. (n * 60) \div 1440 = n \div 24 /\ (n * 60) % 1440 = (n % 24) * 60 OBVIOUS
  <1>2. AddH(tab, v, n) = AddMinutes(tab, v, n \div 24, (n % 24) * 60) BY Units DEF AddH, AddHours
  <1>3. AddM(tab, v, n * MPH) = AddMinutes(tab, v, (n * 60) \div 1440, (n * 60) % 1440) BY Units DEF AddM
  <1> QED BY <1>1, <1>2, <1>3 DEF HourLawAt
=============================================================================
