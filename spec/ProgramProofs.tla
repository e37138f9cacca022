--------------------------- MODULE ProgramProofs ---------------------------
(* WorldProofs continued: programs of any length (MomentOps.tla), whatever the       *)
(* moments they start with and the counts they add.                                 *)
EXTENDS WorldProofs, MomentOps

ASSUME Args == /\ IsTable(Tab)
               /\ \A v \in Starts : IsMoment(Tab, v)
               /\ YearArgs \in SUBSET Int /\ MonthArgs \in SUBSET Int /\ DayArgs \in SUBSET Int /\ HourArgs \in SUBSET Int
               /\ \A n \in MinuteArgs : n[1] \in Int /\ n[2] \in 0..1439
               /\ \A n \in SecondArgs : n[1] \in Int /\ n[2] \in 0..86399

(* What an operation may lead to.                                                   *)
Good(v, r) == r.ok => /\ IsMoment(Tab, r.v) /\ r.cd \in 0..3 /\ r.cs \in 0..2
                      /\ r.v.ns = v.ns /\ r.v.p = v.p

LEMMA SplitMinutes == \A n, q \in Int : \A r \in 0..1439 : n = 1440 * q + r => n \div 1440 = q /\ n % 1440 = r
  OBVIOUS
LEMMA OneQuotient == ASSUME NEW k \in Int, NEW q \in Int, NEW m \in 0..86399, NEW r \in 0..86399, k * 86400 + m = 86400 * q + r PROVE k = q
  <1>1. ~(k >= q + 1) OBVIOUS
  <1>2. ~(k <= q - 1) OBVIOUS
  <1> QED BY <1>1, <1>2
LEMMA SplitDays == ASSUME NEW n \in Int, NEW q \in Int, NEW r \in 0..86399, n = 86400 * q + r PROVE n \div 86400 = q
  <1>1. n \div 86400 \in Int /\ n % 86400 \in 0..86399 /\ n = (n \div 86400) * 86400 + (n % 86400) BY Split
  <1>2. (n \div 86400) * 86400 + (n % 86400) = 86400 * q + r BY <1>1
  <1> QED BY <1>1, <1>2, OneQuotient
LEMMA SplitRest == \A n, q \in Int : n \div 86400 = q => n % 86400 = n - 86400 * q
  OBVIOUS
LEMMA SplitSeconds == \A n, q \in Int : \A r \in 0..86399 : n = 86400 * q + r => n \div 86400 = q /\ n % 86400 = r
  <1> SUFFICES ASSUME NEW n \in Int, NEW q \in Int, NEW r \in 0..86399, n = 86400 * q + r PROVE n \div 86400 = q /\ n % 86400 = r OBVIOUS
  <1>1. n \div 86400 = q BY SplitDays
  <1>2. n % 86400 = n - 86400 * q BY <1>1, SplitRest
  <1> QED BY <1>1, <1>2

LEMMA GoodMonths == ASSUME NEW v, IsMoment(Tab, v), NEW n \in Int PROVE Good(v, AddMonths(Tab, v, n))
  BY Args, MonthMoved DEF Good
LEMMA GoodYears == ASSUME NEW v, IsMoment(Tab, v), NEW n \in Int PROVE Good(v, AddYears(Tab, v, n))
  <1>1. AddYears(Tab, v, n) = AddMonths(Tab, v, 12 * n) BY Args, YearsAreMonths
  <1>2. 12 * n \in Int OBVIOUS
  <1> QED BY <1>1, <1>2, GoodMonths
LEMMA GoodDays == ASSUME NEW v, IsMoment(Tab, v), NEW n \in Int PROVE Good(v, AddDays(Tab, v, n))
  <1> SUFFICES ASSUME AddDays(Tab, v, n).ok PROVE Good(v, AddDays(Tab, v, n)) BY DEF Good
  <1>1. LET r == AddDays(Tab, v, n)
        IN IsMoment(Tab, r.v) /\ r.cd = 0 /\ r.cs \in 0..2 /\ r.v.ns = v.ns /\ r.v.p = v.p BY Args, DayMoved
  <1> QED BY <1>1 DEF Good
LEMMA GoodM == ASSUME NEW v, IsMoment(Tab, v), NEW n \in Int PROVE Good(v, AddM(Tab, v, n))
  <1> DEFINE r == AddM(Tab, v, n)
  <1> SUFFICES ASSUME r.ok PROVE IsMoment(Tab, r.v) /\ r.cd \in 0..3 /\ r.cs \in 0..2 /\ r.v.ns = v.ns /\ r.v.p = v.p BY DEF Good
  <1>1. MinuteLawAt(Tab, v, n) /\ Sound(Tab, v, r) BY Args, Minutes
  <1>2. r.v \in Moments /\ r.cs \in Int BY Args, MinuteMoved
  <1>3. SecondOf(r.v) + r.cs = SecondOf(v) /\ r.cd = 0 /\ (r.cs > 0 => SecondOf(r.v) = MinuteLength(Tab, DayOf(r.v), MinuteOfDay(r.v)) - 1)
    BY <1>1 DEF MinuteLawAt
  <1>4. Exists(Tab, r.v) /\ r.cs >= 0 /\ r.v.ns = v.ns /\ r.v.p = v.p BY <1>1 DEF Sound
  <1>5. IsMoment(Tab, r.v) BY <1>2, <1>4 DEF IsMoment
  <1>6. r.cs <= 2
    <2> DEFINE c == r.cs
               w == r.v
    <2>1. IsMoment(Tab, w) /\ c \in Int /\ SecondOf(w) + c = SecondOf(v) /\ (c > 0 => SecondOf(w) = MinuteLength(Tab, DayOf(w), MinuteOfDay(w)) - 1)
      BY <1>2, <1>3, <1>5
    <2> HIDE DEF c, w
    <2>2. SecondOf(w) \in Int /\ SecondOf(v) \in Int /\ SecondOf(v) <= 60 /\ DayOf(w) \in Int BY <2>1, Args, Face, MomentTypes
    <2>3. MinuteLength(Tab, DayOf(w), MinuteOfDay(w)) \in 59..61 BY <2>2, Args, DayLengths, Units DEF MinuteLength
    <2> DEFINE l == MinuteLength(Tab, DayOf(w), MinuteOfDay(w))
               a == SecondOf(w)
               b == SecondOf(v)
    <2>4. l \in 59..61 /\ a \in Int /\ b \in Int /\ b <= 60 /\ a + c = b /\ (c > 0 => a = l - 1) BY <2>1, <2>2, <2>3
    <2> HIDE DEF l, a, b
    <2>5. c <= 2 BY <2>1, <2>4
    <2> QED BY <2>5 DEF c
  <1> HIDE DEF r
  <1>7. r.cd = 0 /\ r.cs \in 0..2 BY <1>2, <1>3, <1>4, <1>6
  <1> QED BY <1>4, <1>5, <1>7
LEMMA GoodMinutes == ASSUME NEW v, IsMoment(Tab, v), NEW q \in Int, NEW r \in 0..1439 PROVE Good(v, AddMinutes(Tab, v, q, r))
  <1> DEFINE n == 1440 * q + r
  <1>0. n \in Int /\ n = 1440 * q + r OBVIOUS
  <1>1. n \in Int /\ n \div 1440 = q /\ n % 1440 = r BY <1>0, SplitMinutes
  <1> HIDE DEF n
  <1>2. AddM(Tab, v, n) = AddMinutes(Tab, v, q, r) BY <1>1, Units DEF AddM
  <1> QED BY <1>1, <1>2, GoodM
LEMMA GoodHours == ASSUME NEW v, IsMoment(Tab, v), NEW n \in Int PROVE Good(v, AddHours(Tab, v, n \div HPD, n % HPD))
  <1>1. HourLawAt(Tab, v, n) BY Hours
  <1>2. n * MPH \in Int BY Units
  <1>3. AddHours(Tab, v, n \div HPD, n % HPD) = AddM(Tab, v, n * MPH) BY <1>1 DEF HourLawAt, AddH
  <1> QED BY <1>2, <1>3, GoodM
LEMMA GoodS == ASSUME NEW v, IsMoment(Tab, v), NEW n \in Int
               PROVE  LET r == AddS(Tab, v, n) IN Good(v, r) /\ (r.ok => r.cd = 0 /\ r.cs = 0)
  <1> DEFINE r == AddS(Tab, v, n)
  <1>1. r.ok => IsMoment(Tab, r.v) /\ r.cd = 0 /\ r.cs = 0 /\ r.v.ns = v.ns /\ r.v.p = v.p BY Args, SecondsGo
  <1> HIDE DEF r
  <1>2. Good(v, r) /\ (r.ok => r.cd = 0 /\ r.cs = 0) BY <1>1 DEF Good
  <1> QED BY <1>2 DEF r
LEMMA GoodSeconds == ASSUME NEW v, IsMoment(Tab, v), NEW q \in Int, NEW r \in 0..86399
                     PROVE  LET s == AddSeconds(Tab, v, q, r) IN Good(v, s) /\ (s.ok => s.cd = 0 /\ s.cs = 0)
  <1> DEFINE n == 86400 * q + r
  <1>0. n \in Int /\ n = 86400 * q + r OBVIOUS
  <1>1. n \in Int /\ n \div 86400 = q /\ n % 86400 = r BY <1>0, SplitSeconds
  <1> HIDE DEF n
  <1>2. AddS(Tab, v, n) = AddSeconds(Tab, v, q, r) BY <1>1, Units DEF AddS
  <1> QED BY <1>1, <1>2, GoodS
LEMMA GoodApply == ASSUME NEW v, IsMoment(Tab, v), NEW d \in 0..3, NEW s \in 0..2
                   PROVE  LET r == ApplyCarry(Tab, v, d, s)
                          IN /\ Good(v, r) /\ (r.ok => r.cd = 0 /\ r.cs = 0)
                             /\ (r.ok /\ (d > 0 \/ s > 0)) => TicksAt(Tab, r.v) > TicksAt(Tab, v)
  <1> DEFINE a == AddDays(Tab, v, d)
             n == s + a.cs
             u == AddS(Tab, a.v, n)
             r == ApplyCarry(Tab, v, d, s)
  <1>1. r = IF ~a.ok THEN None ELSE u BY DEF ApplyCarry, AddS
  <1>2. CASE ~a.ok
    <2>1. r = None BY <1>1, <1>2
    <2>2. ~r.ok BY <2>1 DEF None
    <2> HIDE DEF r
    <2>3. Good(v, r) /\ (r.ok => r.cd = 0 /\ r.cs = 0) /\ ((r.ok /\ (d > 0 \/ s > 0)) => TicksAt(Tab, r.v) > TicksAt(Tab, v)) BY <2>2 DEF Good
    <2> QED BY <2>3 DEF r
  <1>3. CASE a.ok
    <2> DEFINE w == a.v
               c == a.cs
    <2>1. /\ IsMoment(Tab, w) /\ c \in 0..2 /\ w.ns = v.ns /\ w.p = v.p
          /\ DayOf(w) = DayOf(v) + d /\ w.sod + c = v.sod
      <3>1. LET b == AddDays(Tab, v, d)
            IN IsMoment(Tab, b.v) /\ b.cs \in 0..2 /\ b.v.ns = v.ns /\ b.v.p = v.p /\ DayOf(b.v) = DayOf(v) + d /\ b.v.sod + b.cs = v.sod
        BY <1>3, Args, DayMoved
      <3> QED BY <3>1
    <2>2. n \in Int /\ n = s + c BY <2>1
    <2>3. r = u BY <1>1, <1>3
    <2>4. Good(w, u) /\ (u.ok => u.cd = 0 /\ u.cs = 0)
      <3> HIDE DEF w, n
      <3>1. LET t == AddS(Tab, w, n) IN Good(w, t) /\ (t.ok => t.cd = 0 /\ t.cs = 0) BY <2>1, <2>2, GoodS
      <3>2. AddS(Tab, w, n) = u BY DEF w
      <3> QED BY <3>1, <3>2
    <2>5. u.ok => TicksAt(Tab, u.v) = TicksAt(Tab, w) + n
      <3> HIDE DEF w, n
      <3>1. LET t == AddS(Tab, w, n) IN t.ok => TicksAt(Tab, t.v) = TicksAt(Tab, w) + n BY <2>1, <2>2, Args, SecondsGo
      <3>2. AddS(Tab, w, n) = u BY DEF w
      <3> QED BY <3>1, <3>2
    <2> HIDE DEF w, c, u, r, n, a
    <2>6. Good(v, u) BY <2>1, <2>4 DEF Good
    <2>7. TicksAt(Tab, w) + c >= TicksAt(Tab, v) /\ (d > 0 => TicksAt(Tab, w) + c > TicksAt(Tab, v))
          /\ TicksAt(Tab, w) \in Int /\ TicksAt(Tab, v) \in Int
      <3>1. /\ TicksAt(Tab, w) = Start(Tab, DayOf(w)) + w.sod /\ TicksAt(Tab, v) = Start(Tab, DayOf(v)) + v.sod
            /\ TicksAt(Tab, w) \in Int /\ TicksAt(Tab, v) \in Int BY <2>1, Args, TicksOf, InTime
      <3>2. DayOf(v) \in Int /\ v.sod \in Int /\ w.sod \in Int /\ DayOf(w) \in Int BY <2>1, Args, MomentTypes
      <3>3. CASE d = 0
        <4>1. DayOf(w) = DayOf(v) BY <2>1, <3>2, <3>3
        <4>2. Start(Tab, DayOf(v)) \in Int BY <3>2, Args, DaysFollow
        <4> QED BY <2>1, <3>1, <3>2, <3>3, <4>1, <4>2
      <3>4. CASE d > 0
        <4>1. DayOf(v) < DayOf(w) BY <2>1, <3>2, <3>4
        <4>2. Start(Tab, DayOf(v)) + DayLength(Tab, DayOf(v)) <= Start(Tab, DayOf(w)) BY <3>2, <4>1, Args, DaysApart
        <4>3. Start(Tab, DayOf(v)) \in Int /\ Start(Tab, DayOf(w)) \in Int /\ DayLength(Tab, DayOf(v)) \in 86399..86401 BY <3>2, Args, DaysFollow, DayLengths
        <4> QED BY <2>1, <3>1, <3>2, <3>4, <4>2, <4>3
      <3> QED BY <3>3, <3>4
    <2>8. (u.ok /\ (d > 0 \/ s > 0)) => TicksAt(Tab, u.v) > TicksAt(Tab, v) BY <2>1, <2>2, <2>5, <2>7
    <2>9. Good(v, r) /\ (r.ok => r.cd = 0 /\ r.cs = 0) /\ ((r.ok /\ (d > 0 \/ s > 0)) => TicksAt(Tab, r.v) > TicksAt(Tab, v)) BY <2>3, <2>4, <2>6, <2>8
    <2> QED BY <2>9 DEF r
  <1> QED BY <1>2, <1>3

(* All programs.                                                                    *)
Inv == /\ IsMoment(Tab, cur)
       /\ \E a \in 0..3, b \in 0..2 : carry = <<a, b>>
       /\ carry # NoCarry => step[4]
       /\ step[1] \in {"seconds", "apply", "drop", "build"} => Resolved

THEOREM HoldsExists == ASSUME Inv PROVE AlwaysExists
  BY DEF Inv, AlwaysExists, IsMoment
THEOREM HoldsSmall == ASSUME Inv PROVE CarrySmall
  <1>1. carry # NoCarry => step[4] BY DEF Inv
  <1>2. PICK a \in 0..3, b \in 0..2 : carry = <<a, b>> BY DEF Inv
  <1>3. carry[1] \in 0..3 /\ carry[2] \in 0..2 BY <1>2
  <1> QED BY <1>1, <1>3 DEF CarrySmall
THEOREM HoldsExcess == ASSUME Inv PROVE NoExcess
  BY DEF Inv, NoExcess

THEOREM Starting == Init => Inv
  <1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
  <1>1. IsMoment(Tab, cur) BY Args DEF Init
  <1>2. carry = <<0, 0>> /\ step = <<"build", 0, 0, TRUE>> BY DEF Init, NoCarry
  <1>3. step[4] = TRUE BY <1>2
  <1> QED BY <1>1, <1>2, <1>3 DEF Inv, Resolved, NoCarry

(* One operation: what it leads to is good, and what it is called is right.           *)
LEMMA OneStep == ASSUME Inv, NEW op, NEW a, NEW b, NEW r, Took(op, a, b, r), Good(cur, r),
                        op \in {"seconds", "apply", "drop", "build"} => (r.ok => r.cd = 0 /\ r.cs = 0)
                 PROVE  Inv' /\ (cur'.ns = cur.ns /\ cur'.p = cur.p) /\ (~step'[4] => cur' = cur) /\ step'[1] = op /\ step'[4] = r.ok
  <1>1. /\ cur' = (IF r.ok THEN r.v ELSE cur) /\ carry' = (IF r.ok THEN <<r.cd, r.cs>> ELSE <<0, 0>>)
        /\ step' = <<op, a, b, r.ok>> BY DEF Took, NoCarry
  <1>2. step'[1] = op /\ step'[4] = r.ok BY <1>1
  <1>3. r.ok => IsMoment(Tab, r.v) /\ r.cd \in 0..3 /\ r.cs \in 0..2 /\ r.v.ns = cur.ns /\ r.v.p = cur.p BY DEF Good
  <1>4. IsMoment(Tab, cur') BY <1>1, <1>3 DEF Inv
  <1>5. \E x \in 0..3, y \in 0..2 : carry' = <<x, y>> BY <1>1, <1>3
  <1>6. carry' # <<0, 0>> => step'[4] BY <1>1, <1>2
  <1>7. step'[1] \in {"seconds", "apply", "drop", "build"} => carry' = <<0, 0>> BY <1>1, <1>2, <1>3
  <1>9. Inv' BY <1>4, <1>5, <1>6, <1>7 DEF Inv, Resolved, NoCarry
  <1>10. cur'.ns = cur.ns /\ cur'.p = cur.p BY <1>1, <1>3
  <1>11. ~step'[4] => cur' = cur BY <1>1, <1>2
  <1> QED BY <1>2, <1>9, <1>10, <1>11

(* What holds of every step.                                                        *)
Stepped == /\ Inv' /\ cur'.ns = cur.ns /\ cur'.p = cur.p
           /\ ~step'[4] => cur' = cur
           /\ (step'[1] = "apply" /\ step'[4]) => TicksAt(Tab, cur') > TicksAt(Tab, cur)

LEMMA StepYears == ASSUME Inv, NEW n \in YearArgs, ByYears(n) PROVE Stepped
  <1> DEFINE r == AddYears(Tab, cur, n)
  <1>1. Took("years", n, 0, r) BY DEF ByYears
  <1>2. n \in Int /\ IsMoment(Tab, cur) BY Args DEF Inv
  <1>3. Good(cur, r) BY <1>2, GoodYears
  <1> HIDE DEF r
  <1> QED BY <1>1, <1>3, OneStep DEF Stepped

LEMMA StepMonths == ASSUME Inv, NEW n \in MonthArgs, ByMonths(n) PROVE Stepped
  <1> DEFINE r == AddMonths(Tab, cur, n)
  <1>1. Took("months", n, 0, r) BY DEF ByMonths
  <1>2. n \in Int /\ IsMoment(Tab, cur) BY Args DEF Inv
  <1>3. Good(cur, r) BY <1>2, GoodMonths
  <1> HIDE DEF r
  <1> QED BY <1>1, <1>3, OneStep DEF Stepped

LEMMA StepDays == ASSUME Inv, NEW n \in DayArgs, ByDays(n) PROVE Stepped
  <1> DEFINE r == AddDays(Tab, cur, n)
  <1>1. Took("days", n, 0, r) BY DEF ByDays
  <1>2. n \in Int /\ IsMoment(Tab, cur) BY Args DEF Inv
  <1>3. Good(cur, r) BY <1>2, GoodDays
  <1> HIDE DEF r
  <1> QED BY <1>1, <1>3, OneStep DEF Stepped

LEMMA StepHours == ASSUME Inv, NEW n \in HourArgs, ByHours(n) PROVE Stepped
  <1> DEFINE r == AddHours(Tab, cur, n \div HPD, n % HPD)
  <1>1. Took("hours", n, 0, r) BY DEF ByHours
  <1>2. n \in Int /\ IsMoment(Tab, cur) BY Args DEF Inv
  <1>3. Good(cur, r) BY <1>2, GoodHours
  <1> HIDE DEF r
  <1> QED BY <1>1, <1>3, OneStep DEF Stepped

LEMMA StepMinutes == ASSUME Inv, NEW n \in MinuteArgs, ByMinutes(n[1], n[2]) PROVE Stepped
  <1> DEFINE r == AddMinutes(Tab, cur, n[1], n[2])
  <1>1. Took("minutes", n[1], n[2], r) BY DEF ByMinutes
  <1>2. n[1] \in Int /\ n[2] \in 0..1439 /\ IsMoment(Tab, cur) BY Args DEF Inv
  <1>3. Good(cur, r) BY <1>2, GoodMinutes
  <1> HIDE DEF r
  <1> QED BY <1>1, <1>3, OneStep DEF Stepped

LEMMA StepSeconds == ASSUME Inv, NEW n \in SecondArgs, BySeconds(n[1], n[2]) PROVE Stepped
  <1> DEFINE r == AddSeconds(Tab, cur, n[1], n[2])
  <1>1. Took("seconds", n[1], n[2], r) BY DEF BySeconds
  <1>2. n[1] \in Int /\ n[2] \in 0..86399 /\ IsMoment(Tab, cur) BY Args DEF Inv
  <1>3. Good(cur, r) /\ (r.ok => r.cd = 0 /\ r.cs = 0) BY <1>2, GoodSeconds
  <1> HIDE DEF r
  <1> QED BY <1>1, <1>3, OneStep DEF Stepped

LEMMA StepDrop == ASSUME Inv, Drop PROVE Stepped
  <1> DEFINE r == Some(cur, 0, 0)
  <1>1. Took("drop", 0, 0, r) BY DEF Drop
  <1>2. r.ok /\ r.v = cur /\ r.cd = 0 /\ r.cs = 0 BY DEF Some
  <1>3. IsMoment(Tab, cur) BY DEF Inv
  <1> HIDE DEF r
  <1>4. Good(cur, r) BY <1>2, <1>3 DEF Good
  <1> QED BY <1>1, <1>2, <1>4, OneStep DEF Stepped

LEMMA StepApply == ASSUME Inv, Apply PROVE Stepped
  <1>0. PICK d \in 0..3, s \in 0..2 : carry = <<d, s>> BY DEF Inv
  <1> DEFINE r == ApplyCarry(Tab, cur, d, s)
  <1>1. Took("apply", 0, 0, r) BY <1>0 DEF Apply
  <1>2. IsMoment(Tab, cur) BY DEF Inv
  <1>3. carry # <<0, 0>> BY DEF Apply, Resolved, NoCarry
  <1>4. d > 0 \/ s > 0 BY <1>0, <1>3
  <1>5. /\ Good(cur, r) /\ (r.ok => r.cd = 0 /\ r.cs = 0)
        /\ (r.ok /\ (d > 0 \/ s > 0)) => TicksAt(Tab, r.v) > TicksAt(Tab, cur) BY <1>2, GoodApply
  <1> HIDE DEF r
  <1>6. Inv' /\ (cur'.ns = cur.ns /\ cur'.p = cur.p) /\ (~step'[4] => cur' = cur) /\ step'[4] = r.ok BY <1>1, <1>5, OneStep
  <1>7. r.ok => cur' = r.v BY <1>1 DEF Took
  <1>8. step'[4] => TicksAt(Tab, cur') > TicksAt(Tab, cur) BY <1>4, <1>5, <1>6, <1>7
  <1> QED BY <1>6, <1>8 DEF Stepped

THEOREM Steps == ASSUME Inv, Next PROVE Stepped
  BY StepYears, StepMonths, StepDays, StepHours, StepMinutes, StepSeconds, StepDrop, StepApply DEF Next

THEOREM Stays == ASSUME Inv, UNCHANGED vars PROVE Inv'
  BY DEF Inv, vars, Resolved

(* So it is for programs of any length.                                             *)
THEOREM Always == Spec => []Inv
  <1>1. Init => Inv BY Starting
  <1>2. Inv /\ [Next]_vars => Inv' BY Steps, Stays DEF Stepped
  <1> QED BY <1>1, <1>2, PTL DEF Spec

THEOREM AlwaysHolds == Spec => [](AlwaysExists /\ CarrySmall /\ NoExcess)
  <1>1. Inv => AlwaysExists /\ CarrySmall /\ NoExcess BY HoldsExists, HoldsSmall, HoldsExcess
  <1> QED BY <1>1, Always, PTL

THEOREM AlwaysKept == Spec => RestKept /\ FailKeeps
  <1>1. Inv /\ [Next]_vars => [cur'.ns = cur.ns /\ cur'.p = cur.p]_vars /\ [~step'[4] => cur' = cur]_vars
    BY Steps DEF Stepped
  <1> QED BY <1>1, Always, PTL DEF Spec, RestKept, FailKeeps

LEMMA PairsOrder == ASSUME NEW a \in Int, NEW b \in 0..86399, NEW c \in Int, NEW d \in 0..86399, a * 86400 + b < c * 86400 + d
                    PROVE  a < c \/ (a = c /\ b < d)
  <1>1. ~(a >= c + 1) OBVIOUS
  <1>2. a = c => b < d OBVIOUS
  <1> QED BY <1>1, <1>2

LEMMA LaterPair == ASSUME NEW v, IsMoment(Tab, v), NEW w, IsMoment(Tab, w), TicksAt(Tab, v) < TicksAt(Tab, w)
                   PROVE  PairLt(Elapsed(Tab, v), Elapsed(Tab, w))
  <1> DEFINE a == Elapsed(Tab, v)[1]
             b == Elapsed(Tab, v)[2]
             c == Elapsed(Tab, w)[1]
             d == Elapsed(Tab, w)[2]
  <1>1. a \in Int /\ b \in 0..86399 /\ c \in Int /\ d \in 0..86399 BY Args, TicksOf
  <1>2. TicksAt(Tab, v) = a * 86400 + b /\ TicksAt(Tab, w) = c * 86400 + d BY Units DEF TicksAt
  <1>3. PairLt(Elapsed(Tab, v), Elapsed(Tab, w)) <=> a < c \/ (a = c /\ b < d) BY DEF PairLt
  <1> HIDE DEF a, b, c, d
  <1> QED BY <1>1, <1>2, <1>3, PairsOrder

THEOREM AlwaysMovesOn == Spec => ApplyMovesOn
  <1>1. ASSUME Inv, [Next]_vars PROVE [step'[1] = "apply" /\ step'[4] => PairLt(Elapsed(Tab, cur), Elapsed(Tab, cur'))]_vars
    <2>1. CASE UNCHANGED vars BY <2>1
    <2>2. CASE Next
      <3>1. SUFFICES ASSUME step'[1] = "apply", step'[4] PROVE PairLt(Elapsed(Tab, cur), Elapsed(Tab, cur')) OBVIOUS
      <3>2. IsMoment(Tab, cur) /\ IsMoment(Tab, cur') /\ TicksAt(Tab, cur') > TicksAt(Tab, cur) BY <1>1, <2>2, <3>1, Steps DEF Stepped, Inv
      <3>3. TicksAt(Tab, cur) \in Int /\ TicksAt(Tab, cur') \in Int BY <3>2, Args, InTime
      <3>4. TicksAt(Tab, cur) < TicksAt(Tab, cur') BY <3>2, <3>3
      <3> QED BY <3>2, <3>4, LaterPair
    <2> QED BY <1>1, <2>1, <2>2
  <1> QED BY <1>1, Always, PTL DEF Spec, ApplyMovesOn
=============================================================================
