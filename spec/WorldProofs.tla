---------------------------- MODULE WorldProofs ----------------------------
(* SecondsProofs continued: the laws of MomentWorld's ticking clock, of all moments  *)
(* of the years 0..9999, and the order of moments.                                  *)
EXTENDS SecondsProofs

(* There is a time span in which the moments are.                                   *)
LEMMA InTime == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                PROVE  /\ TicksAt(tab, v) \in Int /\ Start(tab, MinDay) \in Int /\ Start(tab, MaxDay + 1) \in Int
                       /\ TicksAt(tab, v) >= Start(tab, MinDay) /\ TicksAt(tab, v) < Start(tab, MaxDay + 1)
  <1> DEFINE D == DayOf(v)
             y == TicksAt(tab, v)
  <1>1. D \in Int /\ InRange(D) /\ v.sod \in Int /\ 0 <= v.sod /\ v.sod < DayLength(tab, D) BY MomentTypes
  <1>2. y = Start(tab, D) + v.sod BY TicksOf
  <1> HIDE DEF D, y
  <1>3. Start(tab, D) \in Int /\ DayLength(tab, D) \in 86399..86401 BY <1>1, DaysFollow, DayLengths
  <1>4. D >= MinDay /\ D < MaxDay + 1 /\ MinDay \in Int /\ MaxDay + 1 \in Int BY <1>1, Ends DEF InRange
  <1>5. Start(tab, MinDay) <= Start(tab, D)
    <2>1. D > MinDay => Start(tab, MinDay) + DayLength(tab, MinDay) <= Start(tab, D) BY <1>1, <1>4, DaysApart
    <2>2. DayLength(tab, MinDay) \in 86399..86401 /\ Start(tab, MinDay) \in Int BY <1>4, DayLengths, DaysFollow
    <2>3. D = MinDay => Start(tab, MinDay) = Start(tab, D) OBVIOUS
    <2> QED BY <1>1, <1>3, <1>4, <2>1, <2>2, <2>3
  <1>6. Start(tab, D) + DayLength(tab, D) <= Start(tab, MaxDay + 1) /\ Start(tab, MaxDay + 1) \in Int BY <1>1, <1>4, DaysApart, DaysFollow
  <1>7. Start(tab, MinDay) \in Int BY <1>4, DaysFollow
  <1>8. y \in Int /\ y >= Start(tab, MinDay) /\ y < Start(tab, MaxDay + 1) BY <1>1, <1>2, <1>3, <1>5, <1>6, <1>7
  <1> QED BY <1>6, <1>7, <1>8 DEF y

(* Nothing between the first and the last moment is out of reach, nothing else is   *)
(* within reach.                                                                    *)
LEMMA EndDates == /\ DayNumber(0, 1, 1) = MinDay /\ DayNumber(9999, 12, 31) = MaxDay
                  /\ IsDate(0, 1, 1) /\ IsDate(9999, 12, 31)
  <1>1. DayNumber(0, 1, 1) = MinDay /\ DayNumber(9999, 12, 31) = MaxDay BY Real DEF MinDay, MaxDay
  <1>2. DaysInMonth(0, 1) = 31 /\ DaysInMonth(9999, 12) = 31 BY MonthTables DEF DaysInMonth, IsLeap
  <1> QED BY <1>1, <1>2 DEF IsDate

LEMMA EndMoments == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                    PROVE  /\ IsMoment(tab, FirstMoment(v)) /\ IsMoment(tab, LastMoment(tab, v))
                           /\ TicksAt(tab, FirstMoment(v)) = Start(tab, MinDay)
                           /\ TicksAt(tab, LastMoment(tab, v)) = Start(tab, MaxDay + 1) - 1
                           /\ LastMoment(tab, v).ns = v.ns /\ LastMoment(tab, v).p = v.p
  <1> DEFINE a == FirstMoment(v)
             z == LastMoment(tab, v)
             l == DayLength(tab, MaxDay)
  <1>0. MinDay \in Int /\ MaxDay \in Int /\ MaxDay + 1 \in Int BY Ends
  <1>1. DayLength(tab, MinDay) \in 86399..86401 /\ l \in 86399..86401 BY <1>0, DayLengths
  <1>2. v \in Moments BY DEF IsMoment
  <1>l. l = DayLength(tab, MaxDay) OBVIOUS
  <1>z. z = [v EXCEPT !.y = 9999, !.m = 12, !.d = 31, !.sod = l - 1] BY Real DEF LastMoment
  <1>a. a = [v EXCEPT !.y = 0, !.m = 1, !.d = 1, !.sod = 0] BY Real DEF FirstMoment
  <1> HIDE DEF l, a, z
  <1>3. a \in Moments /\ a.y = 0 /\ a.m = 1 /\ a.d = 1 /\ a.sod = 0 BY <1>2, <1>a DEF Moments
  <1>4. z \in Moments /\ z.y = 9999 /\ z.m = 12 /\ z.d = 31 /\ z.sod = l - 1 /\ z.ns = v.ns /\ z.p = v.p BY <1>1, <1>2, <1>z DEF Moments
  <1>5. DayOf(a) = MinDay /\ DayOf(z) = MaxDay BY <1>3, <1>4, EndDates DEF DayOf
  <1>6. IsMoment(tab, a) BY <1>1, <1>3, <1>5, EndDates, Real DEF IsMoment, Exists
  <1>7. IsMoment(tab, z) BY <1>1, <1>4, <1>5, <1>l, EndDates, Real DEF IsMoment, Exists
  <1>8. TicksAt(tab, a) = Start(tab, MinDay) + 0 BY <1>3, <1>5, <1>6, TicksOf
  <1>9. TicksAt(tab, z) = Start(tab, MaxDay) + (l - 1) BY <1>4, <1>5, <1>7, TicksOf
  <1>10. Start(tab, MinDay) \in Int /\ Start(tab, MaxDay) \in Int /\ Start(tab, MaxDay + 1) = Start(tab, MaxDay) + l BY <1>0, <1>l, DaysFollow
  <1>11. TicksAt(tab, a) = Start(tab, MinDay) /\ TicksAt(tab, z) = Start(tab, MaxDay + 1) - 1 BY <1>1, <1>8, <1>9, <1>10
  <1> QED BY <1>4, <1>6, <1>7, <1>11 DEF a, z

THEOREM SecondsRange == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                        PROVE  SecondsRangeAt(tab, v, n)
  <1> DEFINE x == TicksAt(tab, v) + n
             ok == AddS(tab, v, n).ok
  <1>1. x \in Int /\ (ok <=> (x >= Start(tab, MinDay) /\ x < Start(tab, MaxDay + 1))) BY SecondsGo
  <1>2. /\ TicksAt(tab, FirstMoment(v)) = Start(tab, MinDay) /\ TicksAt(tab, LastMoment(tab, v)) = Start(tab, MaxDay + 1) - 1 BY EndMoments
  <1>3. Start(tab, MinDay) \in Int /\ Start(tab, MaxDay + 1) \in Int BY InTime
  <1>4. SecondsRangeAt(tab, v, n) <=> (ok <=> (x >= TicksAt(tab, FirstMoment(v)) /\ x <= TicksAt(tab, LastMoment(tab, v)))) BY DEF SecondsRangeAt
  <1> HIDE DEF x, ok
  <1> QED BY <1>1, <1>2, <1>3, <1>4

(* Between any two moments there is a number of seconds, and it leads from one to   *)
(* the other.                                                                       *)
LEMMA Reached == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w), NEW n \in Int,
                        w.ns = v.ns, w.p = v.p, TicksAt(tab, v) + n = TicksAt(tab, w)
                 PROVE  AddS(tab, v, n) = Plain(w)
  <1> DEFINE r == AddS(tab, v, n)
             x == TicksAt(tab, v) + n
  <1>1. /\ r.ok \in BOOLEAN
        /\ r.ok <=> (x >= Start(tab, MinDay) /\ x < Start(tab, MaxDay + 1))
        /\ r.ok => IsMoment(tab, r.v) /\ TicksAt(tab, r.v) = x /\ r.v.ns = v.ns /\ r.v.p = v.p
        /\ r = IF r.ok THEN Some(r.v, 0, 0) ELSE None BY SecondsGo
  <1>2. x = TicksAt(tab, w) OBVIOUS
  <1> HIDE DEF x, r
  <1>3. x >= Start(tab, MinDay) /\ x < Start(tab, MaxDay + 1) BY <1>2, InTime
  <1>4. r.v = w
    <2>1. IsMoment(tab, r.v) /\ TicksAt(tab, r.v) = TicksAt(tab, w) /\ r.v.ns = w.ns /\ r.v.p = w.p BY <1>1, <1>2, <1>3
    <2> QED BY <2>1, TicksTellApart
  <1>5. r = Some(w, 0, 0) BY <1>1, <1>3, <1>4
  <1> QED BY <1>5 DEF Plain, r

THEOREM SecondsReach == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w)
                        PROVE  SecondsReachAt(tab, v, w)
  <1> DEFINE u == [w EXCEPT !.ns = v.ns, !.p = v.p]
             n == TicksAt(tab, w) - TicksAt(tab, v)
  <1>1. v \in Moments /\ w \in Moments BY DEF IsMoment
  <1>2. u \in Moments /\ u.y = w.y /\ u.m = w.m /\ u.d = w.d /\ u.sod = w.sod /\ u.ns = v.ns /\ u.p = v.p BY <1>1 DEF Moments
  <1>u. u = [w EXCEPT !.ns = v.ns, !.p = v.p] OBVIOUS
  <1> HIDE DEF u
  <1>3. DayOf(u) = DayOf(w) BY <1>2 DEF DayOf
  <1>4. IsMoment(tab, u) BY <1>2, <1>3 DEF IsMoment, Exists
  <1>5. /\ TicksAt(tab, u) = Start(tab, DayOf(u)) + u.sod /\ TicksAt(tab, w) = Start(tab, DayOf(w)) + w.sod
        /\ TicksAt(tab, w) \in Int /\ TicksAt(tab, v) \in Int BY <1>4, TicksOf
  <1>6. TicksAt(tab, u) = TicksAt(tab, w) BY <1>2, <1>3, <1>5
  <1>7. n \in Int /\ TicksAt(tab, v) + n = TicksAt(tab, u) BY <1>5, <1>6
  <1> HIDE DEF n
  <1>8. AddS(tab, v, n) = Plain(u) BY <1>2, <1>4, <1>7, Reached
  <1> QED BY <1>8, <1>u DEF SecondsReachAt, n

(* One second on is the next moment.                                                *)
LEMMA LastOfDay == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                   PROVE  v = LastMoment(tab, v) <=> (DayOf(v) = MaxDay /\ v.sod = DayLength(tab, MaxDay) - 1)
  <1> DEFINE z == LastMoment(tab, v)
             l == DayLength(tab, MaxDay)
  <1>1. v \in Moments BY DEF IsMoment
  <1>2. l \in 86399..86401 BY Ends, DayLengths
  <1>z. z = [v EXCEPT !.y = 9999, !.m = 12, !.d = 31, !.sod = l - 1] BY Real DEF LastMoment
  <1>3. v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ IsDate(v.y, v.m, v.d) BY MomentTypes
  <1> HIDE DEF l, z
  <1>4. z \in Moments /\ z.y = 9999 /\ z.m = 12 /\ z.d = 31 /\ z.sod = l - 1 /\ z.ns = v.ns /\ z.p = v.p BY <1>1, <1>2, <1>z DEF Moments
  <1>5. DayOf(z) = MaxDay BY <1>4, EndDates DEF DayOf
  <1>6. DayOf(v) = MaxDay => v.y = z.y /\ v.m = z.m /\ v.d = z.d
    <2> SUFFICES ASSUME DayOf(v) = MaxDay PROVE v.y = z.y /\ v.m = z.m /\ v.d = z.d OBVIOUS
    <2>1. DayNumber(v.y, v.m, v.d) = DayNumber(9999, 12, 31) BY EndDates DEF DayOf
    <2>2. v.y = 9999 /\ v.m = 12 /\ v.d = 31 BY <1>3, <2>1, EndDates, NumbersDiffer
    <2> QED BY <1>4, <2>2
  <1>7. DayOf(v) = MaxDay /\ v.sod = l - 1 => v = z BY <1>1, <1>4, <1>6, SameRecord
  <1>8. v = z => DayOf(v) = MaxDay /\ v.sod = l - 1 BY <1>4, <1>5
  <1> QED BY <1>7, <1>8 DEF z, l

LEMMA NextTicks == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), v # LastMoment(tab, v)
                   PROVE  LET w == NextMoment(tab, v)
                          IN IsMoment(tab, w) /\ w.ns = v.ns /\ w.p = v.p /\ TicksAt(tab, w) = TicksAt(tab, v) + 1
  <1> DEFINE D == DayOf(v)
             w == NextMoment(tab, v)
  <1>1. /\ v \in Moments /\ v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ v.sod \in Int /\ 0 <= v.sod /\ v.sod < DayLength(tab, D)
        /\ IsDate(v.y, v.m, v.d) /\ D \in Int /\ InRange(D) /\ v.y \in 0..9999
    BY MomentTypes DEF IsMoment
  <1>2. TicksAt(tab, v) = Start(tab, D) + v.sod BY TicksOf
  <1>3. DayLength(tab, D) \in 86399..86401 /\ Start(tab, D) \in Int /\ Start(tab, D + 1) = Start(tab, D) + DayLength(tab, D) BY <1>1, DayLengths, DaysFollow
  <1>w. w = IF v.sod = DayLength(tab, D) - 1 THEN [WithDate(v, NextDate(DateIn(v))) EXCEPT !.sod = 0] ELSE [v EXCEPT !.sod = @ + 1] BY DEF NextMoment
  <1>d. D = DayOf(v) OBVIOUS
  <1> HIDE DEF w, D
  <1>4. CASE v.sod # DayLength(tab, D) - 1
    <2>1. w = [v EXCEPT !.sod = @ + 1] BY <1>4, <1>w
    <2>2. w \in Moments /\ w.y = v.y /\ w.m = v.m /\ w.d = v.d /\ w.sod = v.sod + 1 /\ w.ns = v.ns /\ w.p = v.p BY <1>1, <2>1 DEF Moments
    <2>3. DayOf(w) = D BY <2>2, <1>d DEF DayOf
    <2>4. w.sod >= 0 /\ w.sod < DayLength(tab, D) BY <1>1, <1>3, <1>4, <2>2
    <2>5. IsMoment(tab, w) BY <1>1, <2>2, <2>3, <2>4, Real DEF IsMoment, Exists
    <2>6. TicksAt(tab, w) = Start(tab, D) + w.sod BY <2>3, <2>5, TicksOf
    <2>7. TicksAt(tab, w) = TicksAt(tab, v) + 1 BY <1>1, <1>2, <1>3, <2>2, <2>6
    <2> QED BY <2>2, <2>5, <2>7 DEF w
  <1>5. CASE v.sod = DayLength(tab, D) - 1
    <2> DEFINE n == NextDate(DateIn(v))
    <2>1. w = [WithDate(v, n) EXCEPT !.sod = 0] BY <1>5, <1>w
    <2>2. n[1] \in Int /\ n[2] \in Int /\ n[3] \in Int /\ IsDate(n[1], n[2], n[3]) /\ DayNumber(n[1], n[2], n[3]) = D + 1
      BY <1>1, <1>d, NumberOfNext DEF DateIn, DayOf
    <2> HIDE DEF n
    <2>3. w \in Moments /\ w.y = n[1] /\ w.m = n[2] /\ w.d = n[3] /\ w.sod = 0 /\ w.ns = v.ns /\ w.p = v.p BY <1>1, <2>1, <2>2 DEF Moments, WithDate
    <2>4. DayOf(w) = D + 1 BY <2>2, <2>3 DEF DayOf
    <2>5. D # MaxDay BY <1>5, <1>d, LastOfDay
    <2>6. InRange(D + 1) BY <1>1, <2>5, Ends DEF InRange
    <2>7. w.y \in 0..9999
      <3>1. InRange(DayNumber(w.y, w.m, w.d)) BY <2>4, <2>6 DEF DayOf
      <3>2. w.y \in Int /\ w.m \in Int /\ w.d \in Int /\ IsDate(w.y, w.m, w.d) BY <2>2, <2>3
      <3> QED BY <3>1, <3>2, DaysOfYears
    <2>8. DayLength(tab, D + 1) \in 86399..86401 BY <1>1, DayLengths
    <2>9. IsMoment(tab, w) BY <2>2, <2>3, <2>4, <2>7, <2>8, Real DEF IsMoment, Exists
    <2>10. TicksAt(tab, w) = Start(tab, D + 1) + 0 BY <2>3, <2>4, <2>9, TicksOf
    <2>11. TicksAt(tab, w) = TicksAt(tab, v) + 1 BY <1>1, <1>2, <1>3, <1>5, <2>10
    <2> QED BY <2>3, <2>9, <2>11 DEF w
  <1> QED BY <1>4, <1>5

THEOREM TickIsSecond == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v) PROVE TickIsSecondAt(tab, v)
  <1>1. CASE v = LastMoment(tab, v)
    <2> DEFINE r == AddS(tab, v, 1)
               x == TicksAt(tab, v) + 1
    <2>1. r.ok <=> (x >= Start(tab, MinDay) /\ x < Start(tab, MaxDay + 1)) BY SecondsGo
    <2>2. TicksAt(tab, v) = Start(tab, MaxDay + 1) - 1 BY <1>1, EndMoments
    <2>3. Start(tab, MaxDay + 1) \in Int BY InTime
    <2>4. x = Start(tab, MaxDay + 1) BY <2>2, <2>3
    <2>5. r = IF r.ok THEN Some(r.v, 0, 0) ELSE None BY SecondsGo
    <2> HIDE DEF r, x
    <2>6. r = None BY <2>1, <2>3, <2>4, <2>5
    <2> QED BY <1>1, <2>6 DEF TickIsSecondAt, r
  <1>2. CASE v # LastMoment(tab, v)
    <2> DEFINE w == NextMoment(tab, v)
    <2>1. IsMoment(tab, w) /\ w.ns = v.ns /\ w.p = v.p /\ TicksAt(tab, w) = TicksAt(tab, v) + 1 BY <1>2, NextTicks
    <2> HIDE DEF w
    <2>2. AddS(tab, v, 1) = Plain(w) BY <2>1, Reached
    <2> QED BY <1>2, <2>2 DEF TickIsSecondAt, w
  <1> QED BY <1>1, <1>2

(* C07: the day after is the next on the calendar.                                  *)
THEOREM NextDay == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                   PROVE  NextDayAt(tab, v, n)
  <1> DEFINE r == AddDays(tab, v, n)
             s == AddDays(tab, v, n + 1)
  <1> SUFFICES ASSUME r.ok, s.ok PROVE DateIn(s.v) = NextDate(DateIn(r.v)) BY DEF NextDayAt
  <1>0. n + 1 \in Int /\ DayOf(v) \in Int BY MomentTypes
  <1>1. DayLawAt(tab, v, n) /\ DayLawAt(tab, v, n + 1) BY <1>0, Days
  <1>2. IsMoment(tab, r.v) /\ IsMoment(tab, s.v) BY <1>0, MovedTypes
  <1>3. DayOf(r.v) = DayOf(v) + n /\ DayOf(s.v) = DayOf(v) + (n + 1) BY <1>1 DEF DayLawAt
  <1> DEFINE a == r.v
             b == s.v
             t == NextDate(DateIn(a))
  <1> HIDE DEF r, s
  <1>4. IsMoment(tab, a) /\ IsMoment(tab, b) /\ DayOf(a) = DayOf(v) + n /\ DayOf(b) = DayOf(v) + (n + 1) BY <1>2, <1>3
  <1> HIDE DEF a, b
  <1>5. a.y \in Int /\ a.m \in Int /\ a.d \in Int /\ IsDate(a.y, a.m, a.d) /\ b.y \in Int /\ b.m \in Int /\ b.d \in Int /\ IsDate(b.y, b.m, b.d)
    BY <1>4, MomentTypes
  <1>6. /\ t[1] \in Int /\ t[2] \in Int /\ t[3] \in Int /\ IsDate(t[1], t[2], t[3])
        /\ DayNumber(t[1], t[2], t[3]) = DayNumber(a.y, a.m, a.d) + 1
    BY <1>5, NumberOfNext DEF DateIn
  <1>7. t = <<t[1], t[2], t[3]>> BY DEF NextDate, DateIn
  <1> HIDE DEF t
  <1>8. DayNumber(t[1], t[2], t[3]) = DayNumber(b.y, b.m, b.d) BY <1>0, <1>4, <1>6 DEF DayOf
  <1>9. t[1] = b.y /\ t[2] = b.m /\ t[3] = b.d BY <1>5, <1>6, <1>8, NumbersDiffer
  <1>10. DateIn(b) = t BY <1>7, <1>9 DEF DateIn
  <1> QED BY <1>10 DEF a, b, t

(* A carry of nothing moves nothing.                                                *)
LEMMA HereAgain == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW r,
                          r.ok, IsMoment(tab, r.v), DayOf(r.v) = DayOf(v), r.v.sod = v.sod, r.v.ns = v.ns, r.v.p = v.p
                   PROVE  r.v = v
  <1> DEFINE w == r.v
  <1>1. IsMoment(tab, w) /\ DayOf(w) = DayOf(v) /\ w.sod = v.sod /\ w.ns = v.ns /\ w.p = v.p OBVIOUS
  <1> HIDE DEF w
  <1>2. TicksAt(tab, w) = Start(tab, DayOf(w)) + w.sod /\ TicksAt(tab, v) = Start(tab, DayOf(v)) + v.sod BY <1>1, TicksOf
  <1>3. TicksAt(tab, w) = TicksAt(tab, v) BY <1>1, <1>2
  <1>4. w = v BY <1>1, <1>3, TicksTellApart
  <1> QED BY <1>4 DEF w

LEMMA NoDays == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                PROVE  AddDays(tab, v, 0) = Plain(v)
  <1> DEFINE D == DayOf(v)
             w == WithDate(v, DateOf(D))
  <1>1. /\ v \in Moments /\ v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ IsDate(v.y, v.m, v.d) /\ D \in Int /\ InRange(D)
        /\ v.sod \in Int /\ v.sod < DayLength(tab, D) BY MomentTypes DEF IsMoment
  <1>2. DateOf(D) = <<v.y, v.m, v.d>> BY <1>1, NumberOfDate DEF DayOf
  <1>3. w = v BY <1>1, <1>2 DEF WithDate, Moments
  <1>4. AddDays(tab, v, 0) = Settle(tab, w, 0)
    <2>1. D + 0 = D /\ ~(0 > MaxDay - MinDay \/ 0 < MinDay - MaxDay) BY <1>1, Ends
    <2> QED BY <1>1, <2>1 DEF AddDays
  <1>d. D = DayOf(v) OBVIOUS
  <1> HIDE DEF w, D
  <1>5. ~(v.sod > DayLength(tab, DayOf(v)) - 1) BY <1>1, <1>d, DayLengths
  <1>6. Settle(tab, v, 0) = Some(v, 0, 0) BY <1>5 DEF Settle
  <1> QED BY <1>3, <1>4, <1>6 DEF Plain

LEMMA NoMonths == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                  PROVE  AddMonths(tab, v, 0) = Plain(v)
  <1> DEFINE w == WithDate(v, <<v.y, v.m, v.d>>)
  <1>1. /\ v \in Moments /\ v.y \in 0..9999 /\ v.m \in 1..12 /\ v.d \in Int /\ v.d <= DaysInMonth(v.y, v.m)
        /\ DayOf(v) \in Int /\ v.sod \in Int /\ v.sod < DayLength(tab, DayOf(v)) BY MomentTypes DEF IsMoment
  <1>2. w = v BY <1>1 DEF WithDate, Moments
  <1>3. AddMonths(tab, v, 0) = SettleDate(tab, v, v.y, v.m)
    <2>1. PageOf(v) = 12 * v.y + (v.m - 1) /\ PageOf(v) + 0 = PageOf(v) /\ PageOf(v) \in 0..119999 BY <1>1 DEF PageOf
    <2>2. PageOf(v) \div 12 = v.y /\ PageOf(v) % 12 = v.m - 1
      <3> DEFINE y == v.y
                 m == v.m - 1
      <3>1. y \in Int /\ m \in 0..11 BY <1>1
      <3> HIDE DEF y, m
      <3>2. (12 * y + m) \div 12 = y /\ (12 * y + m) % 12 = m BY <3>1, YearPartsOf
      <3> QED BY <2>1, <3>2 DEF y, m
    <2>3. AddMonths(tab, v, 0) = SettleDate(tab, v, PageOf(v) \div 12, (PageOf(v) % 12) + 1)
      <3>1. LET k == PageOf(v) + 0
            IN k >= 0 /\ k <= 119999 => AddMonths(tab, v, 0) = SettleDate(tab, v, k \div 12, k % 12 + 1) BY MonthsGo
      <3> QED BY <2>1, <3>1
    <2>4. v.m - 1 + 1 = v.m BY <1>1
    <2> QED BY <2>2, <2>3, <2>4
  <1>4. Least(v.d, DaysInMonth(v.y, v.m)) = v.d
    <2>1. DaysInMonth(v.y, v.m) \in 28..31 BY <1>1, MonthSteps
    <2> QED BY <1>1, <2>1 DEF Least
  <1>5. SettleDate(tab, v, v.y, v.m) = Settle(tab, w, v.d - v.d) BY <1>4 DEF SettleDate
  <1>6. v.d - v.d = 0 BY <1>1
  <1> HIDE DEF w
  <1>7. ~(v.sod > DayLength(tab, DayOf(v)) - 1) BY <1>1, DayLengths
  <1>8. Settle(tab, v, 0) = Some(v, 0, 0) BY <1>7 DEF Settle
  <1> QED BY <1>2, <1>3, <1>5, <1>6, <1>8 DEF Plain

LEMMA FaceIs == ASSUME NEW a \in Int, NEW b \in Int, NEW j \in 0..1439, NEW k \in 0..1439
                PROVE  /\ a * 1440 + j = b * 1440 + k => a = b /\ j = k
                       /\ a * 1440 + j < b * 1440 + k => a < b \/ (a = b /\ j < k)
  OBVIOUS

LEMMA MinuteRecord == ASSUME NEW tab, NEW v, NEW n \in Int
                      PROVE  LET r == AddM(tab, v, n) IN r.ok => r = Some(r.v, 0, r.cs)
  <1> DEFINE r == AddM(tab, v, n)
  <1>1. \/ r = None
        \/ \E u, c : r = Some(u, 0, c)
    BY DEF AddM, AddMinutes
  <1> HIDE DEF r
  <1>2. r = None => ~r.ok BY DEF None
  <1>3. ASSUME NEW u, NEW c, r = Some(u, 0, c) PROVE r = Some(r.v, 0, r.cs) BY <1>3 DEF Some
  <1> QED BY <1>1, <1>2, <1>3 DEF r

LEMMA MinuteMoved == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int, AddM(tab, v, n).ok
                     PROVE  AddM(tab, v, n).v \in Moments /\ AddM(tab, v, n).cs \in Int
  <1> DEFINE r == AddM(tab, v, n)
             days == n \div 1440
             q == MinuteOfDay(v) + (n % 1440)
             D == DayOf(v) + days + (q \div 1440)
             k == q % 1440
             s == SecondOf(v)
             last == MinuteLength(tab, D, k) - 1
             sec == Least(s, last)
             w == WithDate(v, DateOf(D))
             u == [w EXCEPT !.sod = 60 * k + sec]
  <1>0. DayOf(v) \in Int /\ v \in Moments BY MomentTypes DEF IsMoment
  <1>1. MinuteOfDay(v) \in 0..1439 /\ s \in Int BY Face
  <1>2. D \in Int /\ k \in 0..1439 BY <1>0, <1>1, FaceParts
  <1>3. r = IF TooFar(days) THEN None
            ELSE IF ~InRange(D) THEN None
            ELSE [ok |-> TRUE, v |-> u, cd |-> 0, cs |-> s - sec]
    BY Units DEF AddM, AddMinutes, Some
  <1>4. sec = Least(s, last) /\ last = MinuteLength(tab, D, k) - 1 OBVIOUS
  <1>w. w = WithDate(v, DateOf(D)) /\ u = [w EXCEPT !.sod = 60 * k + sec] OBVIOUS
  <1>r. r = AddM(tab, v, n) OBVIOUS
  <1> HIDE DEF r, days, q, D, k, s, last, sec, w, u
  <1>5. r.ok /\ None.ok = FALSE BY <1>r DEF None
  <1>6. InRange(D) /\ r = [ok |-> TRUE, v |-> u, cd |-> 0, cs |-> s - sec] BY <1>3, <1>5
  <1>7. last \in 58..60 BY <1>2, <1>4, DayLengths, Units DEF MinuteLength
  <1>8. sec \in Int BY <1>1, <1>4, <1>7 DEF Least
  <1>9. w \in Moments BY <1>0, <1>2, <1>6, <1>w, Dated
  <1>10. u \in Moments BY <1>2, <1>w, <1>8, <1>9 DEF Moments
  <1>11. s - sec \in Int BY <1>1, <1>8
  <1> QED BY <1>6, <1>10, <1>11, <1>r

LEMMA NoMinutes == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                   PROVE  AddM(tab, v, 0) = Plain(v)
  <1> DEFINE r == AddM(tab, v, 0)
             w == r.v
  <1>1. MinuteLawAt(tab, v, 0) /\ Sound(tab, v, r) BY Minutes
  <1>2. /\ MinuteOfDay(v) \in 0..1439 /\ SecondOf(v) \in Int /\ FaceOf(v) = DayOf(v) * 1440 + MinuteOfDay(v)
        /\ DayOf(v) \in Int /\ InRange(DayOf(v)) BY Face, MomentTypes
  <1>3. r.ok
    <2>1. FaceOf(v) + 0 >= MinDay * MPD /\ FaceOf(v) + 0 < (MaxDay + 1) * MPD BY <1>2, Ends, Units DEF InRange
    <2> QED BY <1>1, <2>1 DEF MinuteLawAt
  <1>4. /\ FaceOf(w) = FaceOf(v) + 0 /\ SecondOf(w) + r.cs = SecondOf(v)
        /\ r.cs > 0 => SecondOf(w) = MinuteLength(tab, DayOf(w), MinuteOfDay(w)) - 1
        /\ r.cs >= 0 /\ Exists(tab, w) /\ w.ns = v.ns /\ w.p = v.p BY <1>1, <1>3 DEF MinuteLawAt, Sound
  <1>5. w \in Moments /\ r.cs \in Int BY <1>3, MinuteMoved
  <1>6. r = Some(w, 0, r.cs) BY <1>3, MinuteRecord
  <1>r. r.v = w OBVIOUS
  <1> HIDE DEF r, w
  <1>7. IsMoment(tab, w) BY <1>4, <1>5 DEF IsMoment
  <1>8. MinuteOfDay(w) \in 0..1439 /\ SecondOf(w) \in Int /\ FaceOf(w) = DayOf(w) * 1440 + MinuteOfDay(w) /\ DayOf(w) \in Int BY <1>7, Face, MomentTypes
  <1>9. DayOf(w) = DayOf(v) /\ MinuteOfDay(w) = MinuteOfDay(v)
    <2> DEFINE a == DayOf(w)
               b == DayOf(v)
               j == MinuteOfDay(w)
               k == MinuteOfDay(v)
    <2>1. a * 1440 + j = b * 1440 + k BY <1>2, <1>4, <1>8
    <2>2. a \in Int /\ b \in Int /\ j \in 0..1439 /\ k \in 0..1439 BY <1>2, <1>8
    <2> HIDE DEF a, b, j, k
    <2>3. a = b /\ j = k BY <2>1, <2>2, FaceIs
    <2> QED BY <2>3 DEF a, b, j, k
  <1>10. SecondOf(v) < MinuteLength(tab, DayOf(v), MinuteOfDay(v)) /\ FieldsShowAt(tab, v) /\ FieldsShowAt(tab, w)
    <2>1. FieldsShowAt(tab, v) /\ FieldsShowAt(tab, w) BY <1>7, FieldsShow
    <2> QED BY <2>1 DEF FieldsShowAt
  <1>11. MinuteLength(tab, DayOf(v), MinuteOfDay(v)) \in Int BY <1>2, DayLengths, Units DEF MinuteLength
  <1>12. r.cs = 0
    <2> DEFINE c == r.cs
               l == MinuteLength(tab, DayOf(v), MinuteOfDay(v))
    <2>1. c \in Int /\ c >= 0 /\ l \in Int /\ SecondOf(v) < l /\ (c > 0 => SecondOf(w) = l - 1) /\ SecondOf(w) + c = SecondOf(v)
      BY <1>4, <1>5, <1>9, <1>10, <1>11
    <2> DEFINE a == SecondOf(v)
               b == SecondOf(w)
    <2>2. a \in Int /\ b \in Int /\ a < l /\ (c > 0 => b = l - 1) /\ b + c = a BY <1>2, <1>8, <2>1
    <2> HIDE DEF c, l, a, b
    <2>3. c = 0 BY <2>1, <2>2
    <2> QED BY <2>3 DEF c
  <1>13. w.sod = v.sod
    <2>1. HourOf(w) = HourOf(v) /\ MinuteOf(w) = MinuteOf(v) BY <1>9 DEF HourOf, MinuteOf
    <2>2. SecondOf(w) = SecondOf(v) BY <1>2, <1>4, <1>8, <1>12
    <2>3. /\ SecondOf(v) + SPM * (MinuteOf(v) + MPH * HourOf(v)) = v.sod
          /\ SecondOf(w) + SPM * (MinuteOf(w) + MPH * HourOf(w)) = w.sod BY <1>10 DEF FieldsShowAt
    <2> QED BY <2>1, <2>2, <2>3
  <1>14. w = v
    <2>1. r.ok /\ r.v = w BY <1>3, <1>r DEF r
    <2> QED BY <1>4, <1>7, <1>9, <1>13, <2>1, HereAgain
  <1> QED BY <1>6, <1>12, <1>14 DEF Plain, r

THEOREM Nothing == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v) PROVE NothingMovesNothing(tab, v)
  <1>1. AddDays(tab, v, 0) = Plain(v) BY NoDays
  <1>2. AddMonths(tab, v, 0) = Plain(v) BY NoMonths
  <1>3. AddYears(tab, v, 0) = Plain(v)
    <2>1. AddYears(tab, v, 0) = AddMonths(tab, v, 12 * 0) BY YearsAreMonths
    <2> QED BY <1>2, <2>1
  <1>4. AddM(tab, v, 0) = Plain(v) BY NoMinutes
  <1>5. AddH(tab, v, 0) = Plain(v)
    <2>1. HourLawAt(tab, v, 0) BY Hours
    <2>2. 0 * MPH = 0 BY Units
    <2> QED BY <1>4, <2>1, <2>2 DEF HourLawAt
  <1>6. AddS(tab, v, 0) = Plain(v)
    <2>1. TicksAt(tab, v) + 0 = TicksAt(tab, v)
      <3>1. TicksAt(tab, v) \in Int BY InTime
      <3> QED BY <3>1
    <2> QED BY <2>1, Reached
  <1>7. ApplyCarry(tab, v, 0, 0) = Plain(v)
    <2> DEFINE a == AddDays(tab, v, 0)
    <2>1. a = Some(v, 0, 0) BY <1>1 DEF Plain
    <2>2. ApplyCarry(tab, v, 0, 0) = IF ~a.ok THEN None ELSE AddS(tab, a.v, 0 + a.cs) BY DEF ApplyCarry, AddS
    <2> HIDE DEF a
    <2>3. a.ok /\ a.v = v /\ 0 + a.cs = 0 BY <2>1 DEF Some
    <2> QED BY <1>6, <2>2, <2>3
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF NothingMovesNothing

(* Elapsed seconds order moments as their fields do, the coarsest first.             *)
LEMMA DatesRise == ASSUME NEW y \in Int, NEW m \in Int, NEW d \in Int, IsDate(y, m, d),
                          NEW yy \in Int, NEW mm \in Int, NEW dd \in Int, IsDate(yy, mm, dd),
                          y < yy \/ (y = yy /\ m < mm) \/ (y = yy /\ m = mm /\ d < dd)
                   PROVE  DayNumber(y, m, d) < DayNumber(yy, mm, dd)
  <1>1. /\ DayNumber(y, m, d) \in Int /\ DayNumber(y, m, d) < DaysBeforeYear(y + 1)
        /\ DayNumber(yy, mm, dd) \in Int /\ DaysBeforeYear(yy) <= DayNumber(yy, mm, dd) BY NumberInYear
  <1>2. DaysBeforeYear(y) \in Int /\ DaysBeforeYear(y + 1) \in Int /\ DaysBeforeYear(yy) \in Int BY YearSteps
  <1>3. CASE y < yy
    <2>1. DaysBeforeYear(y + 1) <= DaysBeforeYear(yy) BY <1>3, YearsRise
    <2> QED BY <1>1, <1>2, <2>1
  <1>4. m \in 1..12 /\ mm \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m) /\ dd >= 1 BY DEF IsDate
  <1>5. /\ DaysInMonth(y, m) \in 28..31 /\ DaysBeforeMonth(y, m) \in 0..335 /\ DaysBeforeMonth(y, mm) \in 0..335 BY <1>4, MonthSteps
  <1>6. CASE y = yy /\ m < mm
    <2>1. DaysBeforeMonth(y, m) + DaysInMonth(y, m) <= DaysBeforeMonth(y, mm) BY <1>4, <1>6, MonthsRise
    <2> QED BY <1>2, <1>4, <1>5, <1>6, <2>1 DEF DayNumber
  <1>7. CASE y = yy /\ m = mm /\ d < dd BY <1>2, <1>4, <1>5, <1>7 DEF DayNumber
  <1> QED BY <1>3, <1>6, <1>7

LEMMA Rise == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w), FieldsBefore(v, w)
              PROVE  TicksAt(tab, v) < TicksAt(tab, w)
  <1> DEFINE D == DayOf(v)
             E == DayOf(w)
  <1>1. /\ v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ IsDate(v.y, v.m, v.d) /\ D \in Int /\ v.sod \in Int /\ v.sod >= 0 /\ v.sod < DayLength(tab, D)
        /\ w.y \in Int /\ w.m \in Int /\ w.d \in Int /\ IsDate(w.y, w.m, w.d) /\ E \in Int /\ w.sod \in Int /\ w.sod >= 0 /\ w.sod < DayLength(tab, E)
    BY MomentTypes
  <1>2. TicksAt(tab, v) = Start(tab, D) + v.sod /\ TicksAt(tab, w) = Start(tab, E) + w.sod BY TicksOf
  <1>3. Start(tab, D) \in Int /\ Start(tab, E) \in Int /\ DayLength(tab, D) \in Int BY <1>1, DaysFollow, DayLengths
  <1>4. \/ D < E
        \/ D = E /\ v.sod < w.sod
    <2>1. CASE v.y = w.y /\ v.m = w.m /\ v.d = w.d /\ v.sod < w.sod BY <2>1 DEF DayOf
    <2>2. CASE v.y < w.y \/ (v.y = w.y /\ v.m < w.m) \/ (v.y = w.y /\ v.m = w.m /\ v.d < w.d)
      <3>1. DayNumber(v.y, v.m, v.d) < DayNumber(w.y, w.m, w.d) BY <1>1, <2>2, DatesRise
      <3> QED BY <3>1 DEF DayOf
    <2> QED BY <2>1, <2>2 DEF FieldsBefore
  <1> HIDE DEF D, E
  <1>5. CASE D < E
    <2>1. Start(tab, D) + DayLength(tab, D) <= Start(tab, E) BY <1>1, <1>5, DaysApart
    <2> QED BY <1>1, <1>2, <1>3, <2>1
  <1>6. CASE D = E /\ v.sod < w.sod BY <1>1, <1>2, <1>3, <1>6
  <1> QED BY <1>4, <1>5, <1>6

THEOREM Order == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w)
                 PROVE  OrderAt(tab, v, w)
  <1>1. FieldsBefore(v, w) => TicksAt(tab, v) < TicksAt(tab, w) BY Rise
  <1>2. FieldsBefore(w, v) => TicksAt(tab, w) < TicksAt(tab, v) BY Rise
  <1>3. TicksAt(tab, v) \in Int /\ TicksAt(tab, w) \in Int BY InTime
  <1>4. \/ FieldsBefore(v, w)
        \/ FieldsBefore(w, v)
        \/ v.y = w.y /\ v.m = w.m /\ v.d = w.d /\ v.sod = w.sod
    <2>1. /\ v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ v.sod \in Int
          /\ w.y \in Int /\ w.m \in Int /\ w.d \in Int /\ w.sod \in Int BY MomentTypes
    <2> QED BY <2>1 DEF FieldsBefore
  <1>5. CASE v.y = w.y /\ v.m = w.m /\ v.d = w.d /\ v.sod = w.sod
    <2>1. DayOf(v) = DayOf(w) BY <1>5 DEF DayOf
    <2>2. TicksAt(tab, v) = TicksAt(tab, w) BY <1>5, <2>1, TicksOf
    <2>3. ~FieldsBefore(v, w)
      <3>1. v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ v.sod \in Int BY MomentTypes
      <3> QED BY <1>5, <3>1 DEF FieldsBefore
    <2> QED BY <1>3, <2>2, <2>3 DEF OrderAt
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF OrderAt

(* Later moments lead to later ones, unless days are cut off.                        *)
LEMMA Cut == ASSUME NEW a \in Int, NEW b \in Int, NEW p \in Int, NEW q \in Int, NEW c \in Int, NEW e \in Int, NEW l \in Int,
                    p + c = a, c >= 0, (c > 0 => p = l - 1), p < l,
                    q + e = b, e >= 0, (e > 0 => q = l - 1), q < l, a <= b
             PROVE  p <= q
  OBVIOUS

(* What months and days leave of a moment.                                          *)
LEMMA MonthMoved == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int, AddMonths(tab, v, n).ok
                    PROVE  LET r == AddMonths(tab, v, n)
                           IN /\ IsMoment(tab, r.v) /\ r.cd \in 0..3 /\ r.cs \in 0..2 /\ r.v.ns = v.ns /\ r.v.p = v.p
                              /\ PageOf(r.v) = PageOf(v) + n /\ r.v.d + r.cd = v.d /\ r.v.sod + r.cs = v.sod
                              /\ r.cd > 0 => r.v.d = DaysInMonth(r.v.y, r.v.m)
                              /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1
  <1> DEFINE r == AddMonths(tab, v, n)
             k == PageOf(v) + n
             y == k \div 12
             m == k % 12 + 1
  <1>1. MonthLawAt(tab, v, n) /\ Sound(tab, v, r) BY Months
  <1>2. r # None BY DEF None
  <1>3. IF k >= 0 /\ k <= 119999 THEN r = SettleDate(tab, v, y, m) /\ y \in 0..9999 /\ m \in 1..12
        ELSE r = None BY MonthsGo
  <1>4. r = SettleDate(tab, v, y, m) /\ y \in 0..9999 /\ m \in 1..12 BY <1>2, <1>3
  <1>5. /\ Exists(tab, r.v) /\ PageOf(r.v) = PageOf(v) + n /\ r.v.d + r.cd = v.d /\ r.v.sod + r.cs = v.sod
        /\ r.cd > 0 => r.v.d = DaysInMonth(r.v.y, r.v.m)
        /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1 BY <1>1 DEF Sound, MonthLawAt
  <1> HIDE DEF r, y, m, k
  <1>6. r.v \in Moments /\ r.cs \in 0..2 /\ r.v.d = Least(v.d, DaysInMonth(y, m)) /\ r.cd = v.d - r.v.d /\ r.v.ns = v.ns /\ r.v.p = v.p
    BY <1>4, DateSettled
  <1>7. r.cd \in 0..3
    <2>1. DaysInMonth(y, m) \in 28..31 BY <1>4, MonthSteps
    <2>2. v.d \in Int /\ v.m \in 1..12 /\ v.y \in 0..9999 /\ v.d <= DaysInMonth(v.y, v.m) BY MomentTypes
    <2>3. DaysInMonth(v.y, v.m) \in 28..31 BY <2>2, MonthSteps
    <2> QED BY <1>6, <2>1, <2>2, <2>3 DEF Least
  <1>8. IsMoment(tab, r.v) BY <1>5, <1>6 DEF IsMoment
  <1> QED BY <1>5, <1>6, <1>7, <1>8 DEF r

LEMMA DayMoved == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int, AddDays(tab, v, n).ok
                  PROVE  LET r == AddDays(tab, v, n)
                         IN /\ IsMoment(tab, r.v) /\ r.cd = 0 /\ r.cs \in 0..2 /\ r.v.ns = v.ns /\ r.v.p = v.p
                            /\ DayOf(r.v) = DayOf(v) + n /\ r.v.sod + r.cs = v.sod
                            /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1
  <1> DEFINE r == AddDays(tab, v, n)
             D == DayOf(v) + n
             w == WithDate(v, DateOf(D))
  <1>1. DayLawAt(tab, v, n) /\ Sound(tab, v, r) /\ IsMoment(tab, r.v) BY Days, MovedTypes
  <1>2. r.cs \in 0..2
    <2>1. r # None BY DEF None
    <2>2. r = Settle(tab, w, 0) /\ InRange(D) BY <2>1 DEF AddDays
    <2>3. v \in Moments /\ v.sod >= 0 /\ v.sod <= 86400 /\ D \in Int BY MomentTypes DEF IsMoment
    <2>4. w \in Moments /\ w.y \in 0..9999 /\ IsDate(w.y, w.m, w.d) /\ w.sod = v.sod BY <2>2, <2>3, Dated
    <2> HIDE DEF r, w
    <2> QED BY <2>2, <2>3, <2>4, Settled
  <1>3. /\ r.cd = 0 /\ r.v.ns = v.ns /\ r.v.p = v.p /\ DayOf(r.v) = DayOf(v) + n /\ r.v.sod + r.cs = v.sod
        /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1 BY <1>1 DEF DayLawAt, Sound
  <1> QED BY <1>1, <1>2, <1>3

LEMMA NotBack == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w)
                 PROVE  /\ DayOf(v) < DayOf(w) => ~FieldsBefore(w, v)
                        /\ DayOf(v) = DayOf(w) /\ v.sod <= w.sod => ~FieldsBefore(w, v)
                        /\ FieldsBefore(v, w) => DayOf(v) < DayOf(w) \/ (DayOf(v) = DayOf(w) /\ v.sod < w.sod)
  <1>1. /\ v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ IsDate(v.y, v.m, v.d) /\ v.sod \in Int /\ DayOf(v) \in Int
        /\ w.y \in Int /\ w.m \in Int /\ w.d \in Int /\ IsDate(w.y, w.m, w.d) /\ w.sod \in Int /\ DayOf(w) \in Int
    BY MomentTypes
  <1>2. FieldsBefore(w, v) => DayOf(w) < DayOf(v) \/ (DayOf(w) = DayOf(v) /\ w.sod < v.sod)
    <2>1. CASE v.y = w.y /\ v.m = w.m /\ v.d = w.d /\ w.sod < v.sod BY <2>1 DEF DayOf
    <2>2. CASE w.y < v.y \/ (w.y = v.y /\ w.m < v.m) \/ (w.y = v.y /\ w.m = v.m /\ w.d < v.d)
      <3>1. DayNumber(w.y, w.m, w.d) < DayNumber(v.y, v.m, v.d) BY <1>1, <2>2, DatesRise
      <3> QED BY <3>1 DEF DayOf
    <2> QED BY <2>1, <2>2 DEF FieldsBefore
  <1>3. FieldsBefore(v, w) => DayOf(v) < DayOf(w) \/ (DayOf(v) = DayOf(w) /\ v.sod < w.sod)
    <2>1. CASE v.y = w.y /\ v.m = w.m /\ v.d = w.d /\ v.sod < w.sod BY <2>1 DEF DayOf
    <2>2. CASE v.y < w.y \/ (v.y = w.y /\ v.m < w.m) \/ (v.y = w.y /\ v.m = w.m /\ v.d < w.d)
      <3>1. DayNumber(v.y, v.m, v.d) < DayNumber(w.y, w.m, w.d) BY <1>1, <2>2, DatesRise
      <3> QED BY <3>1 DEF DayOf
    <2> QED BY <2>1, <2>2 DEF FieldsBefore
  <1> QED BY <1>1, <1>2, <1>3

LEMMA DaysKeepOrder == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w), NEW n \in Int, FieldsBefore(v, w)
                       PROVE  KeepsOrder(AddDays(tab, v, n), AddDays(tab, w, n))
  <1> DEFINE r == AddDays(tab, v, n)
             s == AddDays(tab, w, n)
             a == r.v
             b == s.v
             l == DayLength(tab, DayOf(a))
  <1> SUFFICES ASSUME r.ok, s.ok PROVE ~FieldsBefore(b, a) BY DEF KeepsOrder
  <1>1. /\ IsMoment(tab, a) /\ r.cs \in 0..2 /\ DayOf(a) = DayOf(v) + n /\ a.sod + r.cs = v.sod
        /\ r.cs > 0 => a.sod = DayLength(tab, DayOf(a)) - 1 BY DayMoved
  <1>2. /\ IsMoment(tab, b) /\ s.cs \in 0..2 /\ DayOf(b) = DayOf(w) + n /\ b.sod + s.cs = w.sod
        /\ s.cs > 0 => b.sod = DayLength(tab, DayOf(b)) - 1 BY DayMoved
  <1> HIDE DEF a, b, r, s
  <1>3. DayOf(v) < DayOf(w) \/ (DayOf(v) = DayOf(w) /\ v.sod < w.sod) BY NotBack
  <1>4. /\ DayOf(v) \in Int /\ DayOf(w) \in Int /\ v.sod \in Int /\ w.sod \in Int
        /\ DayOf(a) \in Int /\ DayOf(b) \in Int /\ a.sod \in Int /\ b.sod \in Int
        /\ a.sod < DayLength(tab, DayOf(a)) /\ b.sod < DayLength(tab, DayOf(b)) BY <1>1, <1>2, MomentTypes
  <1>5. CASE DayOf(v) < DayOf(w)
    <2>1. DayOf(a) < DayOf(b) BY <1>1, <1>2, <1>4, <1>5
    <2> QED BY <1>1, <1>2, <2>1, NotBack
  <1>6. CASE DayOf(v) = DayOf(w) /\ v.sod < w.sod
    <2>1. DayOf(a) = DayOf(b) BY <1>1, <1>2, <1>6
    <2>2. l \in Int BY <1>4, DayLengths
    <2>3. /\ a.sod + r.cs = v.sod /\ r.cs \in Int /\ r.cs >= 0 /\ (r.cs > 0 => a.sod = l - 1) /\ a.sod < l
          /\ b.sod + s.cs = w.sod /\ s.cs \in Int /\ s.cs >= 0 /\ (s.cs > 0 => b.sod = l - 1) /\ b.sod < l /\ v.sod <= w.sod
      BY <1>1, <1>2, <1>4, <1>6, <2>1
    <2> HIDE DEF l
    <2>4. a.sod <= b.sod BY <1>4, <2>2, <2>3, Cut
    <2> QED BY <1>1, <1>2, <2>1, <2>4, NotBack
  <1> QED BY <1>3, <1>5, <1>6

LEMMA MonthsKeepOrder == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w), NEW n \in Int, FieldsBefore(v, w)
                         PROVE  KeepsOrder(AddMonths(tab, v, n), AddMonths(tab, w, n))
  <1> DEFINE r == AddMonths(tab, v, n)
             s == AddMonths(tab, w, n)
             a == r.v
             b == s.v
             l == DayLength(tab, DayOf(a))
  <1> SUFFICES ASSUME r.ok, s.ok, s.cd = 0 PROVE ~FieldsBefore(b, a) BY DEF KeepsOrder
  <1>1. /\ IsMoment(tab, a) /\ r.cs \in 0..2 /\ r.cd \in 0..3 /\ PageOf(a) = PageOf(v) + n /\ a.d + r.cd = v.d /\ a.sod + r.cs = v.sod
        /\ r.cd > 0 => a.d = DaysInMonth(a.y, a.m)
        /\ r.cs > 0 => a.sod = DayLength(tab, DayOf(a)) - 1 BY MonthMoved
  <1>2. /\ IsMoment(tab, b) /\ s.cs \in 0..2 /\ PageOf(b) = PageOf(w) + n /\ b.d + s.cd = w.d /\ b.sod + s.cs = w.sod
        /\ s.cs > 0 => b.sod = DayLength(tab, DayOf(b)) - 1 BY MonthMoved
  <1>c. s.cd = 0 OBVIOUS
  <1> HIDE DEF a, b, r, s
  <1>3. /\ v.y \in Int /\ v.m \in 1..12 /\ v.d \in Int /\ v.sod \in Int
        /\ w.y \in Int /\ w.m \in 1..12 /\ w.d \in Int /\ w.sod \in Int
        /\ a.y \in Int /\ a.m \in 1..12 /\ a.d \in Int /\ a.sod \in Int /\ a.d <= DaysInMonth(a.y, a.m) /\ a.sod < DayLength(tab, DayOf(a)) /\ DayOf(a) \in Int
        /\ b.y \in Int /\ b.m \in 1..12 /\ b.d \in Int /\ b.sod \in Int /\ b.d <= DaysInMonth(b.y, b.m) /\ b.sod < DayLength(tab, DayOf(b)) /\ DayOf(b) \in Int
    BY <1>1, <1>2, MomentTypes
  <1>4. \/ PageOf(v) < PageOf(w)
        \/ PageOf(v) = PageOf(w) /\ v.d < w.d
        \/ PageOf(v) = PageOf(w) /\ v.d = w.d /\ v.sod < w.sod BY <1>3 DEF FieldsBefore, PageOf
  <1>5. PageOf(v) \in Int /\ PageOf(w) \in Int /\ PageOf(a) \in Int /\ PageOf(b) \in Int BY <1>3 DEF PageOf
  <1>6. CASE PageOf(v) < PageOf(w)
    <2>1. PageOf(a) < PageOf(b) BY <1>1, <1>2, <1>5, <1>6
    <2> QED BY <1>3, <2>1 DEF FieldsBefore, PageOf
  <1>7. PageOf(v) = PageOf(w) => a.y = b.y /\ a.m = b.m
    <2>1. PageOf(v) = PageOf(w) => PageOf(a) = PageOf(b) BY <1>1, <1>2
    <2> QED BY <1>3, <2>1 DEF PageOf
  <1>8. CASE PageOf(v) = PageOf(w) /\ v.d < w.d
    <2>1. a.d < b.d BY <1>1, <1>2, <1>3, <1>c, <1>8
    <2> QED BY <1>3, <1>7, <1>8, <2>1 DEF FieldsBefore
  <1>9. CASE PageOf(v) = PageOf(w) /\ v.d = w.d /\ v.sod < w.sod
    <2>1. r.cd = 0
      <3> DEFINE h == DaysInMonth(a.y, a.m)
      <3>1. h \in Int BY <1>3, MonthSteps
      <3>2. b.d = w.d /\ b.d <= h BY <1>2, <1>3, <1>7, <1>9, <1>c
      <3>3. r.cd > 0 => a.d = h BY <1>1
      <3> HIDE DEF h
      <3> QED BY <1>1, <1>3, <1>9, <3>1, <3>2, <3>3
    <2>2. a.d = b.d /\ a.y = b.y /\ a.m = b.m BY <1>1, <1>2, <1>3, <1>7, <1>9, <1>c, <2>1
    <2>3. DayOf(a) = DayOf(b) BY <2>2 DEF DayOf
    <2>4. l \in Int BY <1>3, DayLengths
    <2>5. /\ a.sod + r.cs = v.sod /\ r.cs \in Int /\ r.cs >= 0 /\ (r.cs > 0 => a.sod = l - 1) /\ a.sod < l
          /\ b.sod + s.cs = w.sod /\ s.cs \in Int /\ s.cs >= 0 /\ (s.cs > 0 => b.sod = l - 1) /\ b.sod < l /\ v.sod <= w.sod
      BY <1>1, <1>2, <1>3, <1>9, <2>3
    <2> HIDE DEF l
    <2>6. a.sod <= b.sod
      <3> DEFINE pp == a.sod
                 qq == b.sod
                 aa == v.sod
                 bb == w.sod
                 cc == r.cs
                 ee == s.cs
      <3>1. pp \in Int /\ qq \in Int /\ aa \in Int /\ bb \in Int /\ cc \in Int /\ ee \in Int BY <1>3, <2>5
      <3>2. /\ pp + cc = aa /\ cc >= 0 /\ (cc > 0 => pp = l - 1) /\ pp < l
            /\ qq + ee = bb /\ ee >= 0 /\ (ee > 0 => qq = l - 1) /\ qq < l /\ aa <= bb BY <2>5
      <3> HIDE DEF pp, qq, aa, bb, cc, ee
      <3>3. pp <= qq BY <2>4, <3>1, <3>2, Cut
      <3> QED BY <3>3 DEF pp, qq
    <2> QED BY <1>1, <1>2, <2>3, <2>6, NotBack
  <1> QED BY <1>4, <1>6, <1>8, <1>9

LEMMA SecondsKeepOrder == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w), NEW n \in Int, FieldsBefore(v, w)
                          PROVE  KeepsOrder(AddS(tab, v, n), AddS(tab, w, n))
  <1> DEFINE r == AddS(tab, v, n)
             s == AddS(tab, w, n)
  <1> SUFFICES ASSUME r.ok, s.ok PROVE ~FieldsBefore(s.v, r.v) BY DEF KeepsOrder
  <1>1. IsMoment(tab, r.v) /\ TicksAt(tab, r.v) = TicksAt(tab, v) + n BY SecondsGo
  <1>2. IsMoment(tab, s.v) /\ TicksAt(tab, s.v) = TicksAt(tab, w) + n BY SecondsGo
  <1>3. TicksAt(tab, v) < TicksAt(tab, w) /\ TicksAt(tab, v) \in Int /\ TicksAt(tab, w) \in Int BY Rise, InTime
  <1> HIDE DEF r, s
  <1>4. FieldsBefore(s.v, r.v) => TicksAt(tab, s.v) < TicksAt(tab, r.v) BY <1>1, <1>2, Rise
  <1> QED BY <1>1, <1>2, <1>3, <1>4

(* The clock's face orders the moments of a day.                                    *)
LEMMA FaceSeconds == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                     PROVE  /\ FaceOf(v) = DayOf(v) * 1440 + MinuteOfDay(v) /\ v.sod = 60 * MinuteOfDay(v) + SecondOf(v)
                            /\ SecondOf(v) < MinuteLength(tab, DayOf(v), MinuteOfDay(v))
  <1>1. FaceOf(v) = DayOf(v) * 1440 + MinuteOfDay(v) /\ MinuteOfDay(v) \in 0..1439 /\ v.sod \in Int BY Face, MomentTypes
  <1>2. SecondOf(v) = v.sod - 60 * MinuteOfDay(v) BY Units DEF SecondOf
  <1>3. SecondOf(v) < MinuteLength(tab, DayOf(v), MinuteOfDay(v))
    <2>1. FieldsShowAt(tab, v) BY FieldsShow
    <2> QED BY <2>1 DEF FieldsShowAt
  <1> QED BY <1>1, <1>2, <1>3

LEMMA ByMinutes == ASSUME NEW s \in Int, NEW t \in Int, NEW j \in 0..1439, NEW k \in 0..1439, NEW a \in Int, NEW b \in Int,
                          s = 60 * j + a, t = 60 * k + b, a >= 0, b >= 0, j < 1439 => a < 60, k < 1439 => b < 60, s < t
                   PROVE  j < k \/ (j = k /\ a < b)
  OBVIOUS

LEMMA NotBackFace == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w), FieldsBefore(v, w)
                     PROVE  FaceOf(v) < FaceOf(w) \/ (FaceOf(v) = FaceOf(w) /\ SecondOf(v) < SecondOf(w))
  <1>1. /\ FaceOf(v) = DayOf(v) * 1440 + MinuteOfDay(v) /\ v.sod = 60 * MinuteOfDay(v) + SecondOf(v)
        /\ FaceOf(w) = DayOf(w) * 1440 + MinuteOfDay(w) /\ w.sod = 60 * MinuteOfDay(w) + SecondOf(w)
        /\ SecondOf(v) < MinuteLength(tab, DayOf(v), MinuteOfDay(v)) /\ SecondOf(w) < MinuteLength(tab, DayOf(w), MinuteOfDay(w))
    BY FaceSeconds
  <1>2. /\ MinuteOfDay(v) \in 0..1439 /\ SecondOf(v) \in Int /\ SecondOf(v) >= 0 /\ DayOf(v) \in Int /\ v.sod \in Int
        /\ MinuteOfDay(w) \in 0..1439 /\ SecondOf(w) \in Int /\ SecondOf(w) >= 0 /\ DayOf(w) \in Int /\ w.sod \in Int BY Face, MomentTypes
  <1>3. DayOf(v) < DayOf(w) \/ (DayOf(v) = DayOf(w) /\ v.sod < w.sod) BY NotBack
  <1>4. CASE DayOf(v) < DayOf(w) BY <1>1, <1>2, <1>4
  <1>5. CASE DayOf(v) = DayOf(w) /\ v.sod < w.sod
    <2>1. (MinuteOfDay(v) < 1439 => SecondOf(v) < 60) /\ (MinuteOfDay(w) < 1439 => SecondOf(w) < 60) BY <1>1, <1>2, Units DEF MinuteLength
    <2> DEFINE s == v.sod
               t == w.sod
               j == MinuteOfDay(v)
               k == MinuteOfDay(w)
               a == SecondOf(v)
               b == SecondOf(w)
    <2>2. /\ s \in Int /\ t \in Int /\ j \in 0..1439 /\ k \in 0..1439 /\ a \in Int /\ b \in Int
          /\ s = 60 * j + a /\ t = 60 * k + b /\ a >= 0 /\ b >= 0 /\ (j < 1439 => a < 60) /\ (k < 1439 => b < 60) /\ s < t
      BY <1>1, <1>2, <1>5, <2>1
    <2> HIDE DEF s, t, j, k, a, b
    <2>3. j < k \/ (j = k /\ a < b) BY <2>2, ByMinutes
    <2>4. MinuteOfDay(v) < MinuteOfDay(w) \/ (MinuteOfDay(v) = MinuteOfDay(w) /\ SecondOf(v) < SecondOf(w)) BY <2>3 DEF j, k, a, b
    <2> QED BY <1>1, <1>2, <1>5, <2>4
  <1> QED BY <1>3, <1>4, <1>5

LEMMA MinutesKeepOrder == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w), NEW n \in Int, FieldsBefore(v, w)
                          PROVE  KeepsOrder(AddM(tab, v, n), AddM(tab, w, n))
  <1> DEFINE r == AddM(tab, v, n)
             s == AddM(tab, w, n)
             a == r.v
             b == s.v
  <1> SUFFICES ASSUME r.ok, s.ok PROVE ~FieldsBefore(b, a) BY DEF KeepsOrder
  <1>1. /\ IsMoment(tab, a) /\ r.cs \in Int /\ r.cs >= 0 /\ FaceOf(a) = FaceOf(v) + n /\ SecondOf(a) + r.cs = SecondOf(v)
        /\ r.cs > 0 => SecondOf(a) = MinuteLength(tab, DayOf(a), MinuteOfDay(a)) - 1
    <2>1. MinuteLawAt(tab, v, n) /\ Sound(tab, v, r) BY Minutes
    <2>2. a \in Moments /\ r.cs \in Int BY MinuteMoved
    <2> QED BY <2>1, <2>2 DEF MinuteLawAt, Sound, IsMoment
  <1>2. /\ IsMoment(tab, b) /\ s.cs \in Int /\ s.cs >= 0 /\ FaceOf(b) = FaceOf(w) + n /\ SecondOf(b) + s.cs = SecondOf(w)
        /\ s.cs > 0 => SecondOf(b) = MinuteLength(tab, DayOf(b), MinuteOfDay(b)) - 1
    <2>1. MinuteLawAt(tab, w, n) /\ Sound(tab, w, s) BY Minutes
    <2>2. b \in Moments /\ s.cs \in Int BY MinuteMoved
    <2> QED BY <2>1, <2>2 DEF MinuteLawAt, Sound, IsMoment
  <1> DEFINE rc == r.cs
             sc == s.cs
  <1>3. rc \in Int /\ rc >= 0 /\ sc \in Int /\ sc >= 0 BY <1>1, <1>2
  <1>4. SecondOf(a) + rc = SecondOf(v) /\ SecondOf(b) + sc = SecondOf(w)
        /\ (rc > 0 => SecondOf(a) = MinuteLength(tab, DayOf(a), MinuteOfDay(a)) - 1)
        /\ (sc > 0 => SecondOf(b) = MinuteLength(tab, DayOf(b), MinuteOfDay(b)) - 1) BY <1>1, <1>2
  <1>5. IsMoment(tab, a) /\ IsMoment(tab, b) /\ FaceOf(a) = FaceOf(v) + n /\ FaceOf(b) = FaceOf(w) + n BY <1>1, <1>2
  <1> HIDE DEF a, b, r, s, rc, sc
  <1>6. /\ FaceOf(v) = DayOf(v) * 1440 + MinuteOfDay(v) /\ v.sod = 60 * MinuteOfDay(v) + SecondOf(v)
        /\ FaceOf(w) = DayOf(w) * 1440 + MinuteOfDay(w) /\ w.sod = 60 * MinuteOfDay(w) + SecondOf(w)
        /\ FaceOf(a) = DayOf(a) * 1440 + MinuteOfDay(a) /\ a.sod = 60 * MinuteOfDay(a) + SecondOf(a)
        /\ FaceOf(b) = DayOf(b) * 1440 + MinuteOfDay(b) /\ b.sod = 60 * MinuteOfDay(b) + SecondOf(b)
        /\ SecondOf(a) < MinuteLength(tab, DayOf(a), MinuteOfDay(a)) /\ SecondOf(b) < MinuteLength(tab, DayOf(b), MinuteOfDay(b))
        /\ SecondOf(v) < MinuteLength(tab, DayOf(v), MinuteOfDay(v))
    BY <1>5, FaceSeconds
  <1>7. /\ MinuteOfDay(v) \in 0..1439 /\ SecondOf(v) \in Int /\ SecondOf(v) >= 0 /\ DayOf(v) \in Int
        /\ MinuteOfDay(w) \in 0..1439 /\ SecondOf(w) \in Int /\ SecondOf(w) >= 0 /\ DayOf(w) \in Int
        /\ MinuteOfDay(a) \in 0..1439 /\ SecondOf(a) \in Int /\ SecondOf(a) >= 0 /\ DayOf(a) \in Int
        /\ MinuteOfDay(b) \in 0..1439 /\ SecondOf(b) \in Int /\ SecondOf(b) >= 0 /\ DayOf(b) \in Int BY <1>5, Face, MomentTypes
  <1>8. \/ FaceOf(v) < FaceOf(w)
        \/ FaceOf(v) = FaceOf(w) /\ SecondOf(v) < SecondOf(w) BY NotBackFace
  <1>9. CASE FaceOf(v) < FaceOf(w)
    <2>1. FaceOf(a) < FaceOf(b) BY <1>5, <1>6, <1>7, <1>9
    <2>2. ~FieldsBefore(b, a)
      <3>1. FieldsBefore(b, a) => FaceOf(b) < FaceOf(a) \/ (FaceOf(b) = FaceOf(a) /\ SecondOf(b) < SecondOf(a)) BY <1>5, NotBackFace
      <3>2. FaceOf(a) \in Int /\ FaceOf(b) \in Int BY <1>6, <1>7
      <3> QED BY <2>1, <3>1, <3>2
    <2> QED BY <2>2
  <1>10. CASE FaceOf(v) = FaceOf(w) /\ SecondOf(v) < SecondOf(w)
    <2>1. FaceOf(a) = FaceOf(b) BY <1>5, <1>10
    <2>2. DayOf(a) = DayOf(b) /\ MinuteOfDay(a) = MinuteOfDay(b)
      <3> DEFINE x == DayOf(a)
                 y == DayOf(b)
                 j == MinuteOfDay(a)
                 k == MinuteOfDay(b)
      <3>1. x \in Int /\ y \in Int /\ j \in 0..1439 /\ k \in 0..1439 /\ x * 1440 + j = y * 1440 + k BY <1>6, <1>7, <2>1
      <3> HIDE DEF x, y, j, k
      <3>2. x = y /\ j = k BY <3>1, FaceIs
      <3> QED BY <3>2 DEF x, y, j, k
    <2> DEFINE l == MinuteLength(tab, DayOf(a), MinuteOfDay(a))
    <2>3. l \in Int BY <1>7, DayLengths, Units DEF MinuteLength
    <2>4. /\ SecondOf(a) + rc = SecondOf(v) /\ (rc > 0 => SecondOf(a) = l - 1) /\ SecondOf(a) < l
          /\ SecondOf(b) + sc = SecondOf(w) /\ (sc > 0 => SecondOf(b) = l - 1) /\ SecondOf(b) < l BY <1>4, <1>6, <2>2
    <2> HIDE DEF l
    <2>5. SecondOf(a) <= SecondOf(b)
      <3>1. SecondOf(v) <= SecondOf(w) BY <1>7, <1>10
      <3> DEFINE pp == SecondOf(a)
                 qq == SecondOf(b)
                 aa == SecondOf(v)
                 bb == SecondOf(w)
      <3>2. pp \in Int /\ qq \in Int /\ aa \in Int /\ bb \in Int /\ aa <= bb BY <1>7, <3>1
      <3>3. pp + rc = aa /\ (rc > 0 => pp = l - 1) /\ pp < l /\ qq + sc = bb /\ (sc > 0 => qq = l - 1) /\ qq < l BY <2>4
      <3> HIDE DEF pp, qq, aa, bb
      <3>4. pp <= qq BY <1>3, <2>3, <3>2, <3>3, Cut
      <3> QED BY <3>4 DEF pp, qq
    <2>6. FieldsBefore(b, a) => FaceOf(b) < FaceOf(a) \/ (FaceOf(b) = FaceOf(a) /\ SecondOf(b) < SecondOf(a)) BY <1>5, NotBackFace
    <2>7. FaceOf(a) \in Int /\ FaceOf(b) \in Int BY <1>6, <1>7
    <2> QED BY <1>7, <2>1, <2>5, <2>6, <2>7
  <1> QED BY <1>8, <1>9, <1>10

THEOREM OrderKept == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w), NEW n \in Int
                     PROVE  OrderKeptAt(tab, v, w, n)
  BY MonthsKeepOrder, DaysKeepOrder, MinutesKeepOrder, SecondsKeepOrder DEF OrderKeptAt
=============================================================================
