--------------------------- MODULE SecondsProofs ---------------------------
(* DayProofs continued: elapsed seconds are what tells moments apart, moving by     *)
(* seconds adds to them, and Unix clocks run along, whatever the leap seconds.      *)
EXTENDS DayProofs

Start(tab, D) == D * 86400 + Accumulated(tab, D)
Ticks(t) == t[1] * 86400 + t[2]

LEMMA Split == ASSUME NEW r \in Int
               PROVE  /\ r \div 86400 \in Int /\ r % 86400 \in 0..86399
                      /\ r = (r \div 86400) * 86400 + (r % 86400)
  <1>1. r = 86400 * (r \div 86400) + (r % 86400) OBVIOUS
  <1>2. r \div 86400 \in Int OBVIOUS
  <1>3. r % 86400 \in 0..86399 OBVIOUS
  <1> QED BY <1>1, <1>2, <1>3

LEMMA Sum86400 == ASSUME NEW a \in Int, NEW b \in Int PROVE (a + b) * 86400 = a * 86400 + b * 86400
  OBVIOUS

LEMMA NormIs == ASSUME NEW q \in Int, NEW r \in Int
                PROVE  LET t == Norm(q, r)
                       IN /\ t[1] \in Int /\ t[2] \in 0..86399 /\ t = <<t[1], t[2]>>
                          /\ Ticks(t) = q * 86400 + r
  <1> DEFINE a == r \div 86400
             b == r % 86400
  <1>1. a \in Int /\ b \in 0..86399 /\ r = a * 86400 + b BY Split
  <1>2. Norm(q, r) = <<q + a, b>> BY Units DEF Norm
  <1> HIDE DEF a, b
  <1>3. (q + a) * 86400 = q * 86400 + a * 86400 BY <1>1, Sum86400
  <1>4. Ticks(<<q + a, b>>) = q * 86400 + r BY <1>1, <1>3 DEF Ticks
  <1> QED BY <1>1, <1>2, <1>4

(* Days follow one another.                                                         *)
THEOREM DaysFollow == ASSUME NEW tab, IsTable(tab), NEW D \in Int
                      PROVE  /\ Start(tab, D) \in Int
                             /\ Start(tab, D + 1) = Start(tab, D) + DayLength(tab, D)
  <1>1. Accumulated(tab, D) \in Int BY AccumulatedSmall
  <1>2. Accumulated(tab, D + 1) = Accumulated(tab, D) + Delta(tab, D) BY AccumulatedStep
  <1>3. Delta(tab, D) \in Int /\ DayLength(tab, D) = 86400 + Delta(tab, D) BY DayLengths
  <1> QED BY <1>1, <1>2, <1>3 DEF Start

LEMMA DaysApart == ASSUME NEW tab, IsTable(tab), NEW D \in Int, NEW E \in Int, D < E
                   PROVE  Start(tab, D) + DayLength(tab, D) <= Start(tab, E)
  <1>1. /\ Accumulated(tab, D + 1) \in Int /\ Accumulated(tab, D + 1) <= 127 /\ Accumulated(tab, D + 1) >= -127
        /\ Accumulated(tab, E) \in Int /\ Accumulated(tab, E) <= 127 /\ Accumulated(tab, E) >= -127
    <2>1. D + 1 \in Int OBVIOUS
    <2> QED BY <2>1, AccumulatedSmall
  <1>2. Start(tab, D) + DayLength(tab, D) = Start(tab, D + 1) BY DaysFollow
  <1>3. CASE E = D + 1
    <2>1. Start(tab, E) = Start(tab, D + 1) BY <1>3
    <2>2. Start(tab, D + 1) \in Int BY <1>1 DEF Start
    <2> QED BY <1>2, <2>1, <2>2
  <1>4. CASE E >= D + 2 BY <1>1, <1>2, <1>4 DEF Start
  <1> QED BY <1>3, <1>4

(* The day of an elapsed time: it starts before or then and has not ended.          *)
THEOREM DayAtIs == ASSUME NEW tab, IsTable(tab), NEW t, t[1] \in Int, t[2] \in 0..86399
                   PROVE  LET D == DayAt(tab, t)
                              s == Ticks(t) - Start(tab, D)
                          IN D \in Int /\ s \in Int /\ 0 <= s /\ s < DayLength(tab, D)
  <1> DEFINE a == t[1]
             b == t[2]
             D == DayAt(tab, t)
  <1>0. a \in Int /\ b \in Int /\ 0 <= b /\ b < 86400 /\ a + 1 \in Int /\ a - 1 \in Int /\ (a - 1) + 1 = a OBVIOUS
  <1>1. D = IF b - 86400 >= Accumulated(tab, a + 1) THEN a + 1
            ELSE IF b >= Accumulated(tab, a) THEN a ELSE a - 1 BY Units DEF DayAt
  <1>2. Ticks(t) = a * 86400 + b BY DEF Ticks
  <1> HIDE DEF a, b, D
  <1>3. /\ Accumulated(tab, a) \in Int /\ Accumulated(tab, a) <= 127 /\ Accumulated(tab, a) >= -127
        /\ Accumulated(tab, a + 1) \in Int /\ Accumulated(tab, a + 1) <= 127 /\ Accumulated(tab, a + 1) >= -127
        /\ Accumulated(tab, a - 1) \in Int /\ Accumulated(tab, a - 1) <= 127 /\ Accumulated(tab, a - 1) >= -127
    BY <1>0, AccumulatedSmall
  <1>4. /\ Accumulated(tab, a + 1) = Accumulated(tab, a) + Delta(tab, a)
        /\ Accumulated(tab, a) = Accumulated(tab, a - 1) + Delta(tab, a - 1)
    <2>1. Accumulated(tab, (a - 1) + 1) = Accumulated(tab, a - 1) + Delta(tab, a - 1) BY <1>0, AccumulatedStep
    <2> QED BY <2>1, <1>0, AccumulatedStep
  <1>5. /\ DayLength(tab, a) = 86400 + Delta(tab, a) /\ DayLength(tab, a - 1) = 86400 + Delta(tab, a - 1)
        /\ DayLength(tab, a + 1) \in 86399..86401 /\ Delta(tab, a) \in {-1, 0, 1} /\ Delta(tab, a - 1) \in {-1, 0, 1}
    BY <1>0, DayLengths
  <1>6. CASE b - 86400 >= Accumulated(tab, a + 1)
    <2>1. D = a + 1 BY <1>1, <1>6
    <2>2. Ticks(t) - Start(tab, a + 1) = b - 86400 - Accumulated(tab, a + 1) BY <1>0, <1>2, <1>3 DEF Start
    <2>3. Ticks(t) - Start(tab, a + 1) \in Int /\ 0 <= Ticks(t) - Start(tab, a + 1) /\ Ticks(t) - Start(tab, a + 1) < DayLength(tab, a + 1)
      BY <1>0, <1>3, <1>5, <1>6, <2>2
    <2> QED BY <1>0, <2>1, <2>3 DEF D
  <1>7. CASE ~(b - 86400 >= Accumulated(tab, a + 1)) /\ b >= Accumulated(tab, a)
    <2>1. D = a BY <1>1, <1>7
    <2>2. Ticks(t) - Start(tab, a) = b - Accumulated(tab, a) BY <1>0, <1>2, <1>3 DEF Start
    <2>3. Ticks(t) - Start(tab, a) \in Int /\ 0 <= Ticks(t) - Start(tab, a) /\ Ticks(t) - Start(tab, a) < DayLength(tab, a)
      BY <1>0, <1>3, <1>4, <1>5, <1>7, <2>2
    <2> QED BY <1>0, <2>1, <2>3 DEF D
  <1>8. CASE ~(b - 86400 >= Accumulated(tab, a + 1)) /\ ~(b >= Accumulated(tab, a))
    <2>1. D = a - 1 BY <1>1, <1>8
    <2>2. Ticks(t) - Start(tab, a - 1) = b + 86400 - Accumulated(tab, a - 1) BY <1>0, <1>2, <1>3 DEF Start
    <2>3. Ticks(t) - Start(tab, a - 1) \in Int /\ 0 <= Ticks(t) - Start(tab, a - 1) /\ Ticks(t) - Start(tab, a - 1) < DayLength(tab, a - 1)
      BY <1>0, <1>3, <1>4, <1>5, <1>8, <2>2
    <2> QED BY <1>0, <2>1, <2>3 DEF D
  <1> QED BY <1>6, <1>7, <1>8

(* ... and there is no other such day.                                              *)
THEOREM DayIsOne == ASSUME NEW tab, IsTable(tab), NEW D \in Int, NEW E \in Int, NEW x \in Int,
                           Start(tab, D) <= x, x < Start(tab, D) + DayLength(tab, D),
                           Start(tab, E) <= x, x < Start(tab, E) + DayLength(tab, E)
                    PROVE  D = E
  <1>1. Start(tab, D) \in Int /\ Start(tab, E) \in Int /\ DayLength(tab, D) \in Int /\ DayLength(tab, E) \in Int BY DaysFollow, DayLengths
  <1>2. ~(D < E) BY <1>1, DaysApart
  <1>3. ~(E < D) BY <1>1, DaysApart
  <1> QED BY <1>2, <1>3

(* A moment's elapsed seconds.                                                      *)
LEMMA TicksOf == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v)
                 PROVE  LET e == Elapsed(tab, v)
                        IN /\ e[1] \in Int /\ e[2] \in 0..86399 /\ e = <<e[1], e[2]>>
                           /\ TicksAt(tab, v) = Ticks(e) /\ Ticks(e) = Start(tab, DayOf(v)) + v.sod /\ Ticks(e) \in Int
  <1>1. DayOf(v) \in Int /\ v.sod \in Int BY MomentTypes
  <1>2. Accumulated(tab, DayOf(v)) \in Int BY <1>1, AccumulatedSmall
  <1> DEFINE q == DayOf(v)
             r == v.sod + Accumulated(tab, DayOf(v))
             e == Elapsed(tab, v)
  <1>3. r \in Int /\ e = Norm(q, r) BY <1>1, <1>2 DEF Elapsed
  <1>4. e[1] \in Int /\ e[2] \in 0..86399 /\ e = <<e[1], e[2]>> /\ Ticks(e) = q * 86400 + r
    <2> HIDE DEF q, r, e
    <2>1. q \in Int BY <1>1 DEF q
    <2> QED BY <1>3, <2>1, NormIs
  <1>5. TicksAt(tab, v) = Ticks(e) BY Units DEF TicksAt, Ticks
  <1> HIDE DEF e
  <1>6. Ticks(e) = Start(tab, DayOf(v)) + v.sod /\ Ticks(e) \in Int BY <1>1, <1>2, <1>4 DEF Start
  <1> QED BY <1>4, <1>5, <1>6 DEF e

(* Moments of the same precision, and nanosecond, with the same elapsed seconds     *)
(* are the same.                                                                    *)
LEMMA SameRecord == ASSUME NEW v \in Moments, NEW w \in Moments, v.y = w.y, v.m = w.m, v.d = w.d, v.sod = w.sod, v.ns = w.ns, v.p = w.p
                    PROVE  v = w
  BY DEF Moments
THEOREM TicksTellApart ==
  ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW w, IsMoment(tab, w),
         TicksAt(tab, v) = TicksAt(tab, w), v.ns = w.ns, v.p = w.p
  PROVE  v = w
  <1>1. /\ TicksAt(tab, v) = Start(tab, DayOf(v)) + v.sod
        /\ TicksAt(tab, w) = Start(tab, DayOf(w)) + w.sod BY TicksOf
  <1>2. /\ DayOf(v) \in Int /\ v.sod \in Int /\ 0 <= v.sod /\ v.sod < DayLength(tab, DayOf(v)) /\ IsDate(v.y, v.m, v.d)
        /\ DayOf(w) \in Int /\ w.sod \in Int /\ 0 <= w.sod /\ w.sod < DayLength(tab, DayOf(w)) /\ IsDate(w.y, w.m, w.d)
        /\ v.y \in Int /\ v.m \in Int /\ v.d \in Int /\ w.y \in Int /\ w.m \in Int /\ w.d \in Int
        /\ v \in Moments /\ w \in Moments
    BY MomentTypes DEF IsMoment
  <1>3. /\ Start(tab, DayOf(v)) \in Int /\ DayLength(tab, DayOf(v)) \in Int
        /\ Start(tab, DayOf(w)) \in Int /\ DayLength(tab, DayOf(w)) \in Int BY <1>2, DaysFollow, DayLengths
  <1> DEFINE x == TicksAt(tab, v)
             D == DayOf(v)
             E == DayOf(w)
  <1>4. /\ x \in Int /\ Start(tab, D) <= x /\ x < Start(tab, D) + DayLength(tab, D)
        /\ Start(tab, E) <= x /\ x < Start(tab, E) + DayLength(tab, E) BY <1>1, <1>2, <1>3
  <1>5. D = E
    <2> HIDE DEF x, D, E
    <2>1. D \in Int /\ E \in Int BY <1>2 DEF D, E
    <2> QED BY <1>4, <2>1, DayIsOne
  <1>6. v.sod = w.sod BY <1>1, <1>2, <1>3, <1>5
  <1>7. DayNumber(v.y, v.m, v.d) = DayNumber(w.y, w.m, w.d) BY <1>5 DEF DayOf
  <1>8. v.y = w.y /\ v.m = w.m /\ v.d = w.d BY <1>2, <1>7, NumbersDiffer
  <1> QED BY <1>2, <1>6, <1>8, SameRecord

LEMMA Near == ASSUME NEW D \in Int, NEW E \in Int, NEW g \in Int, g >= -180000, g <= 180000, D * 86400 + g = E * 86400
              PROVE  D >= E - 3 /\ D <= E + 3
  OBVIOUS

(* Where so many seconds lead: to the moment with so many more elapsed, if its day   *)
(* is in range.                                                                     *)
LEMMA SecondsGo ==
  ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
  PROVE  LET r == AddS(tab, v, n)
             x == TicksAt(tab, v) + n
         IN /\ r.ok \in BOOLEAN /\ x \in Int
            /\ r.ok <=> (x >= Start(tab, MinDay) /\ x < Start(tab, MaxDay + 1))
            /\ r.ok => /\ IsMoment(tab, r.v) /\ TicksAt(tab, r.v) = x /\ r.cd = 0 /\ r.cs = 0
                       /\ r.v.ns = v.ns /\ r.v.p = v.p
            /\ r = IF r.ok THEN Some(r.v, 0, 0) ELSE None
  <1> DEFINE r == AddS(tab, v, n)
             x == TicksAt(tab, v) + n
             days == n \div 86400
             secs == n % 86400
             e == Elapsed(tab, v)
             t == Norm(e[1] + days, e[2] + secs)
             D == DayAt(tab, t)
             u == MomentAt(tab, v, t)
  <1>r. r = AddS(tab, v, n) OBVIOUS
  <1>x. x = TicksAt(tab, v) + n OBVIOUS
  <1>u. u = MomentAt(tab, v, t) OBVIOUS
  <1>D. D = DayAt(tab, t) OBVIOUS
  <1>t. t = Norm(e[1] + days, e[2] + secs) OBVIOUS
  <1>1. days \in Int /\ secs \in 0..86399 /\ n = days * 86400 + secs BY Split
  <1>2. /\ e[1] \in Int /\ e[2] \in 0..86399 /\ TicksAt(tab, v) = Ticks(e) /\ Ticks(e) = e[1] * 86400 + e[2] /\ Ticks(e) \in Int
        /\ TicksAt(tab, v) = Start(tab, DayOf(v)) + v.sod
    BY TicksOf DEF Ticks
  <1>3. r = IF TooFar(days) THEN None ELSE IF ~InRange(D) THEN None ELSE Some(u, 0, 0)
    BY Units DEF AddS, AddSeconds
  <1>4. v \in Moments /\ DayOf(v) \in Int /\ InRange(DayOf(v)) /\ v.sod \in Int /\ 0 <= v.sod /\ v.sod <= 86400 BY MomentTypes DEF IsMoment
  <1> HIDE DEF r, x, days, secs, e, t, D, u
  <1>5. t[1] \in Int /\ t[2] \in 0..86399 /\ Ticks(t) = (e[1] + days) * 86400 + (e[2] + secs)
    <2>1. e[1] + days \in Int /\ e[2] + secs \in Int BY <1>1, <1>2
    <2> QED BY <2>1, <1>t, NormIs
  <1>6. Ticks(t) = x /\ x \in Int
    <2>1. (e[1] + days) * 86400 = e[1] * 86400 + days * 86400 BY <1>1, <1>2, Sum86400
    <2>2. e[1] * 86400 \in Int /\ days * 86400 \in Int BY <1>1, <1>2
    <2> QED BY <1>1, <1>2, <1>5, <1>x, <2>1, <2>2
  <1>7. D \in Int /\ 0 <= x - Start(tab, D) /\ x - Start(tab, D) < DayLength(tab, D)
    BY <1>5, <1>6, <1>D, DayAtIs
  <1>8. /\ MinDay \in Int /\ MaxDay \in Int /\ Start(tab, D) \in Int /\ DayLength(tab, D) \in Int
        /\ Start(tab, MinDay) \in Int /\ Start(tab, MaxDay + 1) \in Int
    <2>1. MaxDay + 1 \in Int /\ MinDay \in Int BY Ends
    <2> QED BY <1>7, <2>1, Ends, DaysFollow, DayLengths
  <1>9. InRange(D) <=> (x >= Start(tab, MinDay) /\ x < Start(tab, MaxDay + 1))
    <2>1. D < MinDay => Start(tab, D) + DayLength(tab, D) <= Start(tab, MinDay) BY <1>7, <1>8, DaysApart
    <2>2. D = MinDay => Start(tab, D) = Start(tab, MinDay) OBVIOUS
    <2>3. D > MinDay => Start(tab, MinDay) <= Start(tab, D)
      <3>1. D > MinDay => Start(tab, MinDay) + DayLength(tab, MinDay) <= Start(tab, D) BY <1>7, <1>8, DaysApart
      <3>2. DayLength(tab, MinDay) \in 86399..86401 BY <1>8, DayLengths
      <3> QED BY <1>8, <3>1, <3>2
    <2>4. D <= MaxDay => Start(tab, D) + DayLength(tab, D) <= Start(tab, MaxDay + 1)
      <3>1. MaxDay + 1 \in Int /\ (D <= MaxDay => D < MaxDay + 1) BY <1>7, <1>8
      <3> QED BY <1>7, <3>1, DaysApart
    <2>5. D > MaxDay => Start(tab, MaxDay + 1) <= Start(tab, D)
      <3>1. MaxDay + 1 \in Int /\ (D > MaxDay => (D = MaxDay + 1 \/ D > MaxDay + 1)) BY <1>7, <1>8
      <3>2. D > MaxDay + 1 => Start(tab, MaxDay + 1) + DayLength(tab, MaxDay + 1) <= Start(tab, D) BY <1>7, <3>1, DaysApart
      <3>3. DayLength(tab, MaxDay + 1) \in 86399..86401 BY <3>1, DayLengths
      <3>4. D = MaxDay + 1 => Start(tab, MaxDay + 1) = Start(tab, D) OBVIOUS
      <3> QED BY <1>8, <3>1, <3>2, <3>3, <3>4
    <2> QED BY <1>6, <1>7, <1>8, <2>1, <2>2, <2>3, <2>4, <2>5 DEF InRange
  <1>10. TooFar(days) => ~InRange(D)
    <2>1. x = Start(tab, DayOf(v)) + v.sod + days * 86400 + secs
      <3>1. Start(tab, DayOf(v)) \in Int /\ days * 86400 \in Int BY <1>1, <1>4, DaysFollow
      <3> QED BY <1>1, <1>2, <1>4, <1>x, <3>1
    <2>2. /\ Accumulated(tab, D) \in Int /\ Accumulated(tab, D) <= 127 /\ Accumulated(tab, D) >= -127
          /\ Accumulated(tab, DayOf(v)) \in Int /\ Accumulated(tab, DayOf(v)) <= 127 /\ Accumulated(tab, DayOf(v)) >= -127
      BY <1>4, <1>7, AccumulatedSmall
    <2>3. Start(tab, D) = D * 86400 + Accumulated(tab, D) /\ Start(tab, DayOf(v)) = DayOf(v) * 86400 + Accumulated(tab, DayOf(v)) BY DEF Start
    <2>4. DayLength(tab, D) <= 86401 BY <1>7, DayLengths
    <2>5. x = DayOf(v) * 86400 + Accumulated(tab, DayOf(v)) + v.sod + days * 86400 + secs BY <2>1, <2>3
    <2>6. 0 <= x - (D * 86400 + Accumulated(tab, D)) /\ x - (D * 86400 + Accumulated(tab, D)) < 86401
      <3>1. D * 86400 + Accumulated(tab, D) \in Int BY <1>7, <2>2
      <3>2. DayLength(tab, D) \in Int BY <1>8
      <3> QED BY <1>6, <1>7, <2>3, <2>4, <3>1, <3>2
    <2>9. DayOf(v) >= -719528 /\ DayOf(v) <= 2932896 BY <1>4, Ends DEF InRange
    <2> DEFINE E == DayOf(v) + days
               a == Accumulated(tab, D)
               b == Accumulated(tab, DayOf(v))
               y == x - (D * 86400 + a)
               g == y + a - b - v.sod - secs
    <2>10. E \in Int /\ E = DayOf(v) + days /\ E * 86400 = DayOf(v) * 86400 + days * 86400 BY <1>1, <1>4, Sum86400
    <2>11. a \in Int /\ a <= 127 /\ a >= -127 /\ b \in Int /\ b <= 127 /\ b >= -127 BY <2>2
    <2>12. y \in Int /\ 0 <= y /\ y < 86401 /\ x = D * 86400 + a + y BY <1>6, <1>7, <2>2, <2>6
    <2>13. DayOf(v) * 86400 \in Int /\ days * 86400 \in Int /\ D * 86400 \in Int BY <1>1, <1>4, <1>7
    <2>14. x = E * 86400 + b + v.sod + secs BY <2>5, <2>10, <2>11, <2>13, <1>1, <1>4
    <2> HIDE DEF a, b, y, E
    <2>15. g \in Int /\ g >= -180000 /\ g <= 180000 BY <2>11, <2>12, <1>1, <1>4
    <2>16. D * 86400 + g = E * 86400
      <3>1. E * 86400 \in Int BY <2>10
      <3> QED BY <2>11, <2>12, <2>13, <2>14, <3>1, <1>1, <1>4
    <2> HIDE DEF g
    <2>17. D >= E - 3 /\ D <= E + 3 BY <2>10, <2>15, <2>16, <1>7, Near
    <2>7. (days > 3652427 => D > 2932896) /\ (days < -3652427 => D < -719528) BY <2>9, <2>10, <2>17, <1>1, <1>4, <1>7
    <2> QED BY <1>1, <1>7, <2>7, Ends DEF TooFar, InRange
  <1>11. CASE ~InRange(D)
    <2>1. r = None BY <1>3, <1>11
    <2>2. r.ok = FALSE BY <2>1 DEF None
    <2>3. ~(x >= Start(tab, MinDay) /\ x < Start(tab, MaxDay + 1)) BY <1>9, <1>11
    <2> QED BY <1>6, <2>1, <2>2, <2>3, <1>r, <1>x
  <1>12. CASE InRange(D)
    <2>1. r = Some(u, 0, 0) BY <1>3, <1>10, <1>12
    <2>2. r.ok = TRUE /\ r.v = u /\ r.cd = 0 /\ r.cs = 0 BY <2>1 DEF Some
    <2> DEFINE w == WithDate(v, DateOf(D))
               s == x - Start(tab, D)
    <2>3. w \in Moments /\ w.y \in 0..9999 /\ IsDate(w.y, w.m, w.d) /\ DayOf(w) = D /\ w.ns = v.ns /\ w.p = v.p
      BY <1>4, <1>7, <1>12, Dated
    <2>4. s \in Int /\ 0 <= s /\ s < DayLength(tab, D) BY <1>6, <1>7, <1>8
    <2>5. (t[1] - D) * SPD + t[2] - Accumulated(tab, D) = s
      <3>1. Accumulated(tab, D) \in Int BY <1>7, AccumulatedSmall
      <3>2. x = t[1] * 86400 + t[2] BY <1>6 DEF Ticks
      <3>3. s = x - (D * 86400 + Accumulated(tab, D)) BY DEF Start
      <3>4. (t[1] - D) * SPD = t[1] * 86400 - D * 86400 BY <1>5, <1>7, Units
      <3>5. t[1] * 86400 \in Int /\ D * 86400 \in Int BY <1>5, <1>7
      <3> QED BY <1>5, <1>6, <1>7, <3>1, <3>2, <3>3, <3>4, <3>5
    <2>6. u = [v EXCEPT !.y = DateOf(D)[1], !.m = DateOf(D)[2], !.d = DateOf(D)[3], !.sod = s]
      BY <1>u, <1>D, <2>5 DEF MomentAt
    <2> HIDE DEF s
    <2>7. u \in Moments /\ u.sod = s /\ u.y = w.y /\ u.m = w.m /\ u.d = w.d /\ u.ns = v.ns /\ u.p = v.p
      <3> DEFINE dt == DateOf(D)
      <3>1. dt[1] \in Int /\ dt[2] \in Int /\ dt[3] \in Int BY <1>7, DateOfNumber
      <3>2. u = [v EXCEPT !.y = dt[1], !.m = dt[2], !.d = dt[3], !.sod = s] BY <2>6
      <3>3. w = [v EXCEPT !.y = dt[1], !.m = dt[2], !.d = dt[3]] BY DEF WithDate
      <3> HIDE DEF dt, w
      <3> QED BY <1>4, <2>4, <3>1, <3>2, <3>3 DEF Moments
    <2> HIDE DEF w
    <2>8. DayOf(u) = D BY <2>3, <2>7 DEF DayOf
    <2>9. Exists(tab, u) BY <2>3, <2>4, <2>7, <2>8, Real DEF Exists
    <2>10. IsMoment(tab, u) BY <2>7, <2>9 DEF IsMoment
    <2>11. TicksAt(tab, u) = x
      <3>1. TicksAt(tab, u) = Start(tab, D) + s BY <2>7, <2>8, <2>10, TicksOf
      <3>2. s = x - Start(tab, D) BY DEF s
      <3> QED BY <1>6, <1>8, <2>4, <3>1, <3>2
    <2>12. x >= Start(tab, MinDay) /\ x < Start(tab, MaxDay + 1) BY <1>9, <1>12
    <2> QED BY <1>6, <2>1, <2>2, <2>7, <2>10, <2>11, <2>12, <1>r, <1>x
  <1> QED BY <1>11, <1>12

(* C09: seconds.                                                                    *)
THEOREM SecondsSound == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                        PROVE  Sound(tab, v, AddS(tab, v, n))
  <1> DEFINE r == AddS(tab, v, n)
  <1>1. r.ok => IsMoment(tab, r.v) /\ r.cd = 0 /\ r.cs = 0 /\ r.v.ns = v.ns /\ r.v.p = v.p BY SecondsGo
  <1> HIDE DEF r
  <1>2. Sound(tab, v, r) BY <1>1 DEF Sound, IsMoment
  <1> QED BY <1>2 DEF r

THEOREM SecondsCompose == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW a \in Int, NEW b \in Int
                          PROVE  SecondsComposeAt(tab, v, a, b)
  <1> DEFINE r == AddS(tab, v, a)
             s == AddS(tab, v, a + b)
             u == AddS(tab, r.v, b)
             x == TicksAt(tab, v) + a
             y == TicksAt(tab, v) + (a + b)
  <1> SUFFICES ASSUME r.ok PROVE u = s BY DEF SecondsComposeAt
  <1>0. a + b \in Int /\ TicksAt(tab, v) \in Int BY TicksOf
  <1>1. /\ IsMoment(tab, r.v) /\ TicksAt(tab, r.v) = x /\ r.v.ns = v.ns /\ r.v.p = v.p BY SecondsGo
  <1>2. /\ s.ok \in BOOLEAN /\ y \in Int
        /\ s.ok <=> (y >= Start(tab, MinDay) /\ y < Start(tab, MaxDay + 1))
        /\ s.ok => IsMoment(tab, s.v) /\ TicksAt(tab, s.v) = y /\ s.v.ns = v.ns /\ s.v.p = v.p
        /\ s = IF s.ok THEN Some(s.v, 0, 0) ELSE None BY <1>0, SecondsGo
  <1> HIDE DEF r, s
  <1> DEFINE z == TicksAt(tab, r.v) + b
  <1>3. /\ u.ok \in BOOLEAN /\ z \in Int
        /\ u.ok <=> (z >= Start(tab, MinDay) /\ z < Start(tab, MaxDay + 1))
        /\ u.ok => IsMoment(tab, u.v) /\ TicksAt(tab, u.v) = z /\ u.v.ns = r.v.ns /\ u.v.p = r.v.p
        /\ u = IF u.ok THEN Some(u.v, 0, 0) ELSE None BY <1>1, SecondsGo
  <1>4. z = y BY <1>0, <1>1
  <1> HIDE DEF u, x, y, z
  <1>5. u.ok = s.ok BY <1>2, <1>3, <1>4
  <1>6. u.ok => u.v = s.v
    <2> SUFFICES ASSUME u.ok PROVE u.v = s.v OBVIOUS
    <2>1. IsMoment(tab, u.v) /\ IsMoment(tab, s.v) /\ TicksAt(tab, u.v) = TicksAt(tab, s.v) /\ u.v.ns = s.v.ns /\ u.v.p = s.v.p
      BY <1>1, <1>2, <1>3, <1>4, <1>5
    <2> QED BY <2>1, TicksTellApart
  <1> QED BY <1>2, <1>3, <1>5, <1>6

THEOREM SecondsCancel == ASSUME NEW tab, IsTable(tab), NEW v, IsMoment(tab, v), NEW n \in Int
                         PROVE  SecondsCancelAt(tab, v, n)
  <1> DEFINE r == AddS(tab, v, n)
             u == AddS(tab, r.v, -n)
             x == TicksAt(tab, v) + n
  <1> SUFFICES ASSUME r.ok PROVE u = Plain(v) BY DEF SecondsCancelAt
  <1>0. -n \in Int /\ TicksAt(tab, v) \in Int /\ n + (-n) = 0 BY TicksOf
  <1>1. IsMoment(tab, r.v) BY SecondsGo
  <1>2. SecondsComposeAt(tab, v, n, -n) BY <1>0, SecondsCompose
  <1>3. u = AddS(tab, v, n + (-n)) BY <1>2 DEF SecondsComposeAt
  <1>4. u = AddS(tab, v, 0) BY <1>0, <1>3
  <1> DEFINE z == AddS(tab, v, 0)
             y == TicksAt(tab, v) + 0
  <1>5. /\ z.ok \in BOOLEAN
        /\ z.ok <=> (y >= Start(tab, MinDay) /\ y < Start(tab, MaxDay + 1))
        /\ z.ok => IsMoment(tab, z.v) /\ TicksAt(tab, z.v) = y /\ z.v.ns = v.ns /\ z.v.p = v.p
        /\ z = IF z.ok THEN Some(z.v, 0, 0) ELSE None BY SecondsGo
  <1>6. y = TicksAt(tab, v) BY <1>0
  <1> HIDE DEF z, y, u, r
  <1>7. y >= Start(tab, MinDay) /\ y < Start(tab, MaxDay + 1)
    <2> DEFINE D == DayOf(v)
    <2>1. D \in Int /\ InRange(D) /\ v.sod \in Int /\ 0 <= v.sod /\ v.sod < DayLength(tab, D) BY MomentTypes
    <2>2. y = Start(tab, D) + v.sod BY <1>6, TicksOf
    <2> HIDE DEF D
    <2>3. Start(tab, D) \in Int /\ DayLength(tab, D) \in 86399..86401 BY <2>1, DaysFollow, DayLengths
    <2>4. D >= MinDay /\ D < MaxDay + 1 /\ MinDay \in Int /\ MaxDay + 1 \in Int BY <2>1, Ends DEF InRange
    <2>5. Start(tab, MinDay) <= Start(tab, D)
      <3>1. D > MinDay => Start(tab, MinDay) + DayLength(tab, MinDay) <= Start(tab, D) BY <2>1, <2>4, DaysApart
      <3>2. DayLength(tab, MinDay) \in 86399..86401 /\ Start(tab, MinDay) \in Int BY <2>4, DayLengths, DaysFollow
      <3>3. D = MinDay => Start(tab, MinDay) = Start(tab, D) OBVIOUS
      <3> QED BY <2>1, <2>3, <2>4, <3>1, <3>2, <3>3
    <2>6. Start(tab, D) + DayLength(tab, D) <= Start(tab, MaxDay + 1) /\ Start(tab, MaxDay + 1) \in Int BY <2>1, <2>4, DaysApart, DaysFollow
    <2>7. Start(tab, MinDay) \in Int BY <2>4, DaysFollow
    <2> QED BY <2>1, <2>2, <2>3, <2>5, <2>6, <2>7
  <1>8. z.v = v BY <1>5, <1>6, <1>7, TicksTellApart
  <1>9. u = Some(v, 0, 0) BY <1>4, <1>5, <1>7, <1>8 DEF z
  <1> QED BY <1>9 DEF Plain

(* C12, C13, C14: a Unix clock advances by one second per second, except at the end  *)
(* of a day with a leap second.                                                      *)
THEOREM ClockRuns == ASSUME NEW tab, IsTable(tab), NEW D \in Int, NEW s \in 0..86399
                     PROVE  ClockRunsAt(tab, D, s)
  <1> DEFINE a == InstantOf(tab, D, s)
             b == IF s = SPD - 1 THEN InstantOf(tab, D + 1, 0) ELSE InstantOf(tab, D, s + 1)
  <1>1. /\ Accumulated(tab, D) \in Int /\ Accumulated(tab, D + 1) \in Int /\ Delta(tab, D) \in Int
        /\ Accumulated(tab, D + 1) = Accumulated(tab, D) + Delta(tab, D) BY AccumulatedSmall, AccumulatedStep
  <1>2. a[1] \in Int /\ a[2] \in Int /\ Ticks(a) = D * 86400 + (s + Accumulated(tab, D))
    <2>1. s + Accumulated(tab, D) \in Int BY <1>1
    <2> QED BY <2>1, NormIs DEF InstantOf
  <1>3. b[1] \in Int /\ b[2] \in Int
        /\ Ticks(b) = IF s = 86399 THEN (D + 1) * 86400 + (0 + Accumulated(tab, D + 1)) ELSE D * 86400 + (s + 1 + Accumulated(tab, D))
    <2>1. s + 1 + Accumulated(tab, D) \in Int /\ 0 + Accumulated(tab, D + 1) \in Int BY <1>1
    <2>2. SPD - 1 = 86399 BY Units
    <2>3. CASE s = 86399
      <3>1. b = Norm(D + 1, 0 + Accumulated(tab, D + 1)) BY <2>2, <2>3 DEF InstantOf
      <3> HIDE DEF b
      <3> QED BY <2>1, <2>3, <3>1, NormIs
    <2>4. CASE s # 86399
      <3>1. b = Norm(D, s + 1 + Accumulated(tab, D)) BY <2>2, <2>4 DEF InstantOf
      <3> HIDE DEF b
      <3> QED BY <2>1, <2>4, <3>1, NormIs
    <2> QED BY <2>3, <2>4
  <1>b. a = InstantOf(tab, D, s) /\ b = IF s = SPD - 1 THEN InstantOf(tab, D + 1, 0) ELSE InstantOf(tab, D, s + 1) OBVIOUS
  <1> HIDE DEF a, b
  <1>4. (b[1] - a[1]) * SPD + b[2] - a[2] = Ticks(b) - Ticks(a) BY <1>2, <1>3, Units DEF Ticks
  <1>5. (b[1] - a[1]) * SPD + b[2] - a[2] = 1 + (IF s = SPD - 1 THEN Delta(tab, D) ELSE 0)
    <2>1. D * 86400 \in Int /\ (D + 1) * 86400 = D * 86400 + 86400 OBVIOUS
    <2> QED BY <1>1, <1>2, <1>3, <1>4, <2>1, Units
  <1> QED BY <1>5, <1>b DEF ClockRunsAt

(* C10: resolving a carry moves days by the calendar, then seconds by the clock.    *)
LEMMA PairsSame == ASSUME NEW a, NEW b, a[1] \in Int, a[2] \in 0..86399, a = <<a[1], a[2]>>,
                          b[1] \in Int, b[2] \in 0..86399, b = <<b[1], b[2]>>, Ticks(a) = Ticks(b)
                   PROVE  a = b
  <1> DEFINE p == a[1]
             q == a[2]
             r == b[1]
             s == b[2]
  <1>1. p \in Int /\ q \in 0..86399 /\ r \in Int /\ s \in 0..86399 /\ p * 86400 + q = r * 86400 + s BY DEF Ticks
  <1>2. a = <<p, q>> /\ b = <<r, s>> OBVIOUS
  <1> HIDE DEF p, q, r, s
  <1>3. p = r /\ q = s BY <1>1
  <1> QED BY <1>2, <1>3

THEOREM Carries == ASSUME NEW tab, IsTable(tab), NEW r, r.ok => IsMoment(tab, r.v) /\ r.cd \in Int /\ r.cs \in Int
                   PROVE  CarryMoves(tab, r)
  <1> DEFINE a == Resolve(tab, r)
             days == DayOf(r.v) + r.cd
             x == Elapsed(tab, a.v)
             lost == IF r.v.sod > DayLength(tab, days) - 1 THEN r.v.sod - (DayLength(tab, days) - 1) ELSE 0
             start == Norm(days, Accumulated(tab, days) + r.v.sod - lost)
  <1> SUFFICES ASSUME r.ok, a.ok PROVE x = Norm(start[1], start[2] + r.cs + lost) BY DEF CarryMoves
  <1> DEFINE v == r.v
             d == AddDays(tab, v, r.cd)
             n == r.cs + d.cs
             u == AddS(tab, d.v, n)
  <1>0. IsMoment(tab, v) /\ r.cd \in Int /\ r.cs \in Int /\ DayOf(v) \in Int /\ v.sod \in Int /\ days \in Int /\ v.sod >= 0
    <2>1. IsMoment(tab, v) /\ r.cd \in Int /\ r.cs \in Int OBVIOUS
    <2> HIDE DEF v
    <2>2. DayOf(v) \in Int /\ v.sod \in Int /\ v.sod >= 0 BY <2>1, MomentTypes
    <2> QED BY <2>1, <2>2 DEF v
  <1>1. a = IF ~d.ok THEN None ELSE u BY Units DEF Resolve, ApplyCarry, AddS
  <1>2. d.ok /\ a = u /\ u.ok
    <2>1. None.ok = FALSE BY DEF None
    <2> HIDE DEF a, d, u
    <2> QED BY <1>1, <2>1
  <1>v. v = r.v /\ days = DayOf(v) + r.cd
        /\ lost = (IF v.sod > DayLength(tab, days) - 1 THEN v.sod - (DayLength(tab, days) - 1) ELSE 0)
        /\ start = Norm(days, Accumulated(tab, days) + v.sod - lost) OBVIOUS
  <1>n. n = r.cs + d.cs OBVIOUS
  <1>x. x = Elapsed(tab, a.v) OBVIOUS
  <1> HIDE DEF v, a, days, lost, start, x, n
  <1>3. DayLawAt(tab, v, r.cd) /\ Sound(tab, v, d) BY <1>0, Days
  <1>4. IsMoment(tab, d.v) BY <1>0, <1>2, MovedTypes
  <1>5. d.v.sod + d.cs = v.sod /\ (d.cs > 0 => d.v.sod = DayLength(tab, DayOf(d.v)) - 1) /\ DayOf(d.v) = days
    BY <1>2, <1>3, <1>v DEF DayLawAt
  <1>6. d.cs >= 0 BY <1>2, <1>3 DEF Sound
  <1>7. d.cs \in Int
    <2> DEFINE w == WithDate(v, DateOf(days))
    <2>1. d = Settle(tab, w, 0) /\ InRange(days)
      <3>1. d # None BY <1>2 DEF None
      <3> QED BY <3>1, <1>v DEF AddDays
    <2>2. v \in Moments /\ v.sod <= 86400 BY <1>0, MomentTypes DEF IsMoment
    <2>3. w \in Moments /\ w.y \in 0..9999 /\ IsDate(w.y, w.m, w.d) /\ w.sod = v.sod BY <1>0, <2>1, <2>2, Dated
    <2> HIDE DEF d, w
    <2>4. d.cs \in 0..2 BY <1>0, <2>1, <2>2, <2>3, Settled
    <2> QED BY <2>4
  <1> HIDE DEF d
  <1>8. d.v.sod \in Int /\ d.v.sod < DayLength(tab, days) /\ DayLength(tab, days) \in Int BY <1>0, <1>4, <1>5, MomentTypes, DayLengths
  <1>9. lost = d.cs
    <2>1. CASE v.sod > DayLength(tab, days) - 1
      <3>1. d.cs > 0
        <4> DEFINE p == d.v.sod
                   q == d.cs
                   l == DayLength(tab, days)
                   s == v.sod
        <4>1. p \in Int /\ q \in Int /\ l \in Int /\ s \in Int /\ p + q = s /\ p < l /\ s > l - 1 BY <1>0, <1>5, <1>7, <1>8, <2>1
        <4> HIDE DEF p, q, l, s
        <4>2. q > 0 BY <4>1
        <4> QED BY <4>2 DEF q
      <3>2. d.cs = v.sod - (DayLength(tab, days) - 1) BY <3>1, <1>0, <1>5, <1>7, <1>8
      <3> QED BY <1>v, <2>1, <3>2
    <2>2. CASE ~(v.sod > DayLength(tab, days) - 1)
      <3>1. ~(d.cs > 0) BY <1>0, <1>5, <1>7, <1>8, <2>2
      <3> QED BY <1>v, <1>6, <1>7, <2>2, <3>1
    <2> QED BY <2>1, <2>2
  <1>10. n \in Int BY <1>0, <1>7, <1>n
  <1>11. IsMoment(tab, u.v) /\ TicksAt(tab, u.v) = TicksAt(tab, d.v) + n BY <1>2, <1>4, <1>10, SecondsGo
  <1>12. TicksAt(tab, d.v) = Start(tab, days) + d.v.sod BY <1>4, <1>5, TicksOf
  <1> HIDE DEF u
  <1>13. /\ x[1] \in Int /\ x[2] \in 0..86399 /\ x = <<x[1], x[2]>> /\ Ticks(x) = Start(tab, days) + d.v.sod + n
    <2>1. Start(tab, days) \in Int BY <1>0, DaysFollow
    <2>2. x = Elapsed(tab, u.v) BY <1>2, <1>x
    <2>3. x[1] \in Int /\ x[2] \in 0..86399 /\ x = <<x[1], x[2]>> /\ TicksAt(tab, u.v) = Ticks(x) BY <1>11, <2>2, TicksOf
    <2> QED BY <2>1, <2>3, <1>11, <1>12
  <1>14. Accumulated(tab, days) \in Int BY <1>0, AccumulatedSmall
  <1>15. start[1] \in Int /\ start[2] \in 0..86399 /\ Ticks(start) = days * 86400 + (Accumulated(tab, days) + v.sod - lost)
    <2>1. Accumulated(tab, days) + v.sod - lost \in Int BY <1>0, <1>7, <1>9, <1>14
    <2> QED BY <1>0, <1>v, <2>1, NormIs
  <1> DEFINE z == Norm(start[1], start[2] + r.cs + lost)
  <1>16. /\ z[1] \in Int /\ z[2] \in 0..86399 /\ z = <<z[1], z[2]>> /\ Ticks(z) = start[1] * 86400 + (start[2] + r.cs + lost)
    <2>1. start[2] + r.cs + lost \in Int BY <1>0, <1>7, <1>9, <1>15
    <2> QED BY <1>15, <2>1, NormIs
  <1> HIDE DEF z
  <1>17. Ticks(z) = Ticks(x)
    <2>1. Ticks(start) = start[1] * 86400 + start[2] BY DEF Ticks
    <2>2. start[1] * 86400 \in Int /\ days * 86400 \in Int BY <1>0, <1>15
    <2>3. Ticks(z) = days * 86400 + (Accumulated(tab, days) + v.sod - lost) + r.cs + lost
      BY <1>0, <1>7, <1>9, <1>14, <1>15, <1>16, <2>1, <2>2
    <2>4. Start(tab, days) = days * 86400 + Accumulated(tab, days) BY DEF Start
    <2> QED BY <1>0, <1>5, <1>7, <1>8, <1>9, <1>13, <1>14, <1>n, <2>2, <2>3, <2>4
  <1>18. x = z BY <1>13, <1>16, <1>17, PairsSame
  <1> QED BY <1>18 DEF z

LEMMA HourPartsOf == \A k, h \in Int : \A i \in 0..59 : k = 60 * h + i => k \div 60 = h /\ k % 60 = i
  OBVIOUS

(* C01: what a builder accepts is shown by what it builds.                          *)
THEOREM BuildsShow ==
  ASSUME NEW tab, IsTable(tab),
         NEW f \in [y : Int, m : Int, d : Int, h : Int, mi : Int, s : Int, ms : Int, us : Int, n : Int, p : Int],
         f.y >= 0, "ok" \in BuildOutcomes(tab, f)
  PROVE  /\ IsMoment(tab, Built(f))
         /\ HourOf(Built(f)) = f.h /\ MinuteOf(Built(f)) = f.mi /\ SecondOf(Built(f)) = f.s
         /\ DateIn(Built(f)) = <<f.y, f.m, f.d>>
  <1> DEFINE v == Built(f)
             k == 60 * f.h + f.mi
             D == DayNumber(f.y, f.m, f.d)
  <1>1. /\ f.y \in Int /\ f.m \in Int /\ f.d \in Int /\ f.h \in Int /\ f.mi \in Int /\ f.s \in Int
        /\ f.ms \in Int /\ f.us \in Int /\ f.n \in Int /\ f.p \in Int OBVIOUS
  <1>2. /\ f.y <= MaxYear /\ IsDate(f.y, f.m, f.d)
        /\ f.h >= 0 /\ f.h < HPD /\ f.mi >= 0 /\ f.mi < MPH /\ f.s >= 0
        /\ f.s < MinuteLength(tab, DayNumber(f.y, f.m, f.d), f.h * MPH + f.mi)
    BY <1>1, Real DEF BuildOutcomes
  <1>3. D \in Int BY <1>1, <1>2, DaysOfYears
  <1>4. k \in 0..1439 /\ f.h * MPH + f.mi = k BY <1>1, <1>2, Units
  <1>5. v = [y |-> f.y, m |-> f.m, d |-> f.d, sod |-> 60 * k + f.s, ns |-> f.ms * 1000000 + f.us * 1000 + f.n, p |-> f.p]
    BY Units DEF Built
  <1>k. k = 60 * f.h + f.mi OBVIOUS
  <1> HIDE DEF k
  <1>6. 60 * k + f.s \in Int /\ f.ms * 1000000 + f.us * 1000 + f.n \in Int BY <1>1, <1>4
  <1> HIDE DEF v
  <1>7. v \in Moments /\ v.y = f.y /\ v.m = f.m /\ v.d = f.d /\ v.sod = 60 * k + f.s BY <1>1, <1>5, <1>6 DEF Moments
  <1>8. DayOf(v) = D BY <1>7 DEF DayOf
  <1> HIDE DEF D
  <1>9. f.s < MinuteLength(tab, DayOf(v), k) BY <1>2, <1>4, <1>8 DEF D
  <1>10. MinuteOfDay(v) = k /\ SecondOf(v) = f.s /\ v.sod >= 0 /\ v.sod < DayLength(tab, DayOf(v))
    BY <1>1, <1>2, <1>3, <1>4, <1>7, <1>8, <1>9, FaceBack
  <1>11. k \div 60 = f.h /\ k % 60 = f.mi
    <2> DEFINE h == f.h
               i == f.mi
    <2>1. h \in Int /\ i \in 0..59 /\ k = 60 * h + i BY <1>1, <1>2, <1>k, Units
    <2> HIDE DEF h, i
    <2>2. k \div 60 = h /\ k % 60 = i BY <2>1, HourPartsOf
    <2> QED BY <2>2 DEF h, i
  <1>12. HourOf(v) = f.h /\ MinuteOf(v) = f.mi BY <1>10, <1>11, Units DEF HourOf, MinuteOf
  <1>13. Exists(tab, v) BY <1>1, <1>2, <1>7, <1>10, Real DEF Exists
  <1>14. DateIn(v) = <<f.y, f.m, f.d>> BY <1>7 DEF DateIn
  <1> QED BY <1>7, <1>10, <1>12, <1>13, <1>14 DEF v, IsMoment
============================================================================
