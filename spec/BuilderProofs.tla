--------------------------- MODULE BuilderProofs ---------------------------
(* Builder.tla proved with TLAPS for any values set in any order, any number of      *)
(* times, and any leap-second table: what can be built is what exists, and it shows   *)
(* what was set last.                                                               *)
EXTENDS SecondsProofs, Builder

ASSUME Given == IsTable(Tab) /\ \A i \in 1..9 : FieldValues(i) \in SUBSET Nat

Fields == [1..9 -> Nat \cup {-1}]
Inv == /\ f \in Fields
       /\ out # {} => BuildableFields(f) /\ out = BuildOutcomes(Tab, Filled(f))

LEMMA StartsSo == ASSUME Init PROVE Inv
  BY DEF Init, Inv, Fields, Unset

LEMMA StaysSo == ASSUME Inv, [Next]_bvars PROVE Inv'
  <1>1. CASE UNCHANGED bvars BY <1>1 DEF bvars, Inv
  <1>2. CASE Build BY <1>2 DEF Build, Inv
  <1>3. CASE \E i \in 1..9 : \E x \in FieldValues(i) : Set(i, x)
    <2>0. PICK i \in 1..9 : \E x \in FieldValues(i) : Set(i, x) BY <1>3
    <2>1. PICK x \in FieldValues(i) : Set(i, x) BY <2>0
    <2>2. x \in Nat BY Given
    <2> QED BY <2>1, <2>2 DEF Set, Inv, Fields
  <1> QED BY <1>1, <1>2, <1>3 DEF Next

(* The finest field given.                                                          *)
Finest1(g, i) == g[i] # -1 /\ \A j \in (i + 1)..9 : g[j] = -1
LEMMA FinestIs == ASSUME NEW g \in Fields, \E i \in 1..9 : g[i] # -1
                  PROVE  FinestOf(g) \in 1..9 /\ Finest1(g, FinestOf(g))
  <1>1. \E i \in 1..9 : Finest1(g, i)
    <2>9. CASE g[9] # -1 BY <2>9 DEF Finest1
    <2>8. CASE g[9] = -1 /\ g[8] # -1 BY <2>8 DEF Finest1
    <2>7. CASE g[9] = -1 /\ g[8] = -1 /\ g[7] # -1 BY <2>7 DEF Finest1
    <2>6. CASE g[9] = -1 /\ g[8] = -1 /\ g[7] = -1 /\ g[6] # -1 BY <2>6 DEF Finest1
    <2>5. CASE g[9] = -1 /\ g[8] = -1 /\ g[7] = -1 /\ g[6] = -1 /\ g[5] # -1 BY <2>5 DEF Finest1
    <2>4. CASE g[9] = -1 /\ g[8] = -1 /\ g[7] = -1 /\ g[6] = -1 /\ g[5] = -1 /\ g[4] # -1 BY <2>4 DEF Finest1
    <2>3. CASE g[9] = -1 /\ g[8] = -1 /\ g[7] = -1 /\ g[6] = -1 /\ g[5] = -1 /\ g[4] = -1 /\ g[3] # -1 BY <2>3 DEF Finest1
    <2>2. CASE g[9] = -1 /\ g[8] = -1 /\ g[7] = -1 /\ g[6] = -1 /\ g[5] = -1 /\ g[4] = -1 /\ g[3] = -1 /\ g[2] # -1 BY <2>2 DEF Finest1
    <2>1. CASE g[9] = -1 /\ g[8] = -1 /\ g[7] = -1 /\ g[6] = -1 /\ g[5] = -1 /\ g[4] = -1 /\ g[3] = -1 /\ g[2] = -1 BY <2>1 DEF Finest1
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9
  <1>2. FinestOf(g) = CHOOSE i \in 1..9 : Finest1(g, i) BY DEF FinestOf, Finest1, Unset
  <1> QED BY <1>1, <1>2

(* What is given, and what stands for what is not.                                   *)
Given1(g, i) == IF g[i] # -1 THEN g[i] ELSE Defaults[i]
LEMMA FilledIs == ASSUME NEW g \in Fields, BuildableFields(g)
                  PROVE  /\ FinestOf(g) \in 1..9
                         /\ \A i \in 1..9 : i <= FinestOf(g) <=> g[i] # -1
                         /\ Filled(g) = [y |-> g[1], m |-> Given1(g, 2), d |-> Given1(g, 3), h |-> Given1(g, 4), mi |-> Given1(g, 5),
                                         s |-> Given1(g, 6), ms |-> Given1(g, 7), us |-> Given1(g, 8), n |-> Given1(g, 9), p |-> FinestOf(g) - 1]
  <1>1. FinestOf(g) \in 1..9 /\ Finest1(g, FinestOf(g)) BY FinestIs DEF BuildableFields, Unset
  <1>2. \A i \in 1..9 : i <= FinestOf(g) => g[i] # -1 BY <1>1 DEF BuildableFields, Unset
  <1>3. \A i \in 1..9 : ~(i <= FinestOf(g)) => g[i] = -1 BY <1>1 DEF Finest1
  <1> DEFINE q == FinestOf(g)
  <1>4. \A i \in 1..9 : (IF i <= q THEN g[i] ELSE Defaults[i]) = Given1(g, i) BY <1>2, <1>3 DEF Given1
  <1>5. g[1] # -1 BY <1>1, <1>2
  <1>6. Given1(g, 1) = g[1] BY <1>5 DEF Given1
  <1>7. Filled(g) = [y |-> Given1(g, 1), m |-> Given1(g, 2), d |-> Given1(g, 3), h |-> Given1(g, 4), mi |-> Given1(g, 5),
                     s |-> Given1(g, 6), ms |-> Given1(g, 7), us |-> Given1(g, 8), n |-> Given1(g, 9), p |-> q - 1]
    <2>1. Filled(g) = [y |-> IF 1 <= q THEN g[1] ELSE Defaults[1], m |-> IF 2 <= q THEN g[2] ELSE Defaults[2],
                       d |-> IF 3 <= q THEN g[3] ELSE Defaults[3], h |-> IF 4 <= q THEN g[4] ELSE Defaults[4],
                       mi |-> IF 5 <= q THEN g[5] ELSE Defaults[5], s |-> IF 6 <= q THEN g[6] ELSE Defaults[6],
                       ms |-> IF 7 <= q THEN g[7] ELSE Defaults[7], us |-> IF 8 <= q THEN g[8] ELSE Defaults[8],
                       n |-> IF 9 <= q THEN g[9] ELSE Defaults[9], p |-> q - 1] BY DEF Filled
    <2> HIDE DEF q
    <2> QED BY <1>4, <2>1
  <1> QED BY <1>1, <1>2, <1>3, <1>6, <1>7

LEMMA GivenIs == ASSUME NEW g \in Fields
                 PROVE  /\ \A i \in {2, 3} : (g[i] # -1 => Given1(g, i) = g[i]) /\ (g[i] = -1 => Given1(g, i) = 1) /\ Given1(g, i) \in Nat
                        /\ \A i \in 4..9 : (g[i] # -1 => Given1(g, i) = g[i]) /\ (g[i] = -1 => Given1(g, i) = 0) /\ Given1(g, i) \in Nat
                        /\ \A i \in 1..9 : g[i] \in Int /\ g[i] >= -1 /\ (g[i] # -1 => g[i] \in Nat)
  BY DEF Given1, Defaults, Fields

LEMMA FilledTyped == ASSUME NEW g \in Fields, BuildableFields(g)
                     PROVE  /\ Filled(g) \in [y : Int, m : Int, d : Int, h : Int, mi : Int, s : Int, ms : Int, us : Int, n : Int, p : Int]
                            /\ Filled(g).y = g[1] /\ Filled(g).m = Given1(g, 2) /\ Filled(g).d = Given1(g, 3) /\ Filled(g).h = Given1(g, 4)
                            /\ Filled(g).mi = Given1(g, 5) /\ Filled(g).s = Given1(g, 6) /\ Filled(g).ms = Given1(g, 7)
                            /\ Filled(g).us = Given1(g, 8) /\ Filled(g).n = Given1(g, 9) /\ Filled(g).p = FinestOf(g) - 1
                            /\ g[1] \in Nat
  <1>1. /\ FinestOf(g) \in 1..9
        /\ \A i \in 1..9 : i <= FinestOf(g) <=> g[i] # -1
        /\ Filled(g) = [y |-> g[1], m |-> Given1(g, 2), d |-> Given1(g, 3), h |-> Given1(g, 4), mi |-> Given1(g, 5),
                        s |-> Given1(g, 6), ms |-> Given1(g, 7), us |-> Given1(g, 8), n |-> Given1(g, 9), p |-> FinestOf(g) - 1] BY FilledIs
  <1>2. g[1] # -1 BY <1>1
  <1>3. g[1] \in Nat BY <1>2, GivenIs
  <1>4. \A i \in 2..9 : Given1(g, i) \in Nat BY GivenIs
  <1>5. /\ g[1] \in Int /\ Given1(g, 2) \in Int /\ Given1(g, 3) \in Int /\ Given1(g, 4) \in Int /\ Given1(g, 5) \in Int /\ Given1(g, 6) \in Int
        /\ Given1(g, 7) \in Int /\ Given1(g, 8) \in Int /\ Given1(g, 9) \in Int /\ FinestOf(g) - 1 \in Int BY <1>1, <1>3, <1>4
  <1> QED BY <1>1, <1>3, <1>5

LEMMA SplitThousand == ASSUME NEW n \in Int, NEW q \in Int, NEW r \in 0..999, n = 1000 * q + r
             PROVE  n \div 1000 = q /\ n % 1000 = r
  <1> DEFINE k == n \div 1000
             m == n % 1000
  <1>1. k \in Int OBVIOUS
  <1>2. m \in 0..999 OBVIOUS
  <1>3. n = 1000 * k + m OBVIOUS
  <1> HIDE DEF k, m
  <1>4. ~(k >= q + 1) BY <1>1, <1>2, <1>3
  <1>5. ~(k <= q - 1) BY <1>1, <1>2, <1>3
  <1>6. k = q BY <1>1, <1>4, <1>5
  <1>7. m = r BY <1>2, <1>3, <1>6
  <1> QED BY <1>6, <1>7 DEF k, m

LEMMA SplitMillion == ASSUME NEW n \in Int, NEW q \in Int, NEW r \in 0..999999, n = 1000000 * q + r
             PROVE  n \div 1000000 = q /\ n % 1000000 = r
  <1> DEFINE k == n \div 1000000
             m == n % 1000000
  <1>1. k \in Int OBVIOUS
  <1>2. m \in 0..999999 OBVIOUS
  <1>3. n = 1000000 * k + m OBVIOUS
  <1> HIDE DEF k, m
  <1>4. ~(k >= q + 1) BY <1>1, <1>2, <1>3
  <1>5. ~(k <= q - 1) BY <1>1, <1>2, <1>3
  <1>6. k = q BY <1>1, <1>4, <1>5
  <1>7. m = r BY <1>2, <1>3, <1>6
  <1> QED BY <1>6, <1>7 DEF k, m

LEMMA Thousands == ASSUME NEW a \in 0..999, NEW b \in 0..999, NEW c \in 0..999, NEW n, n = a * 1000000 + b * 1000 + c
                   PROVE  n \in 0..999999999 /\ n \div 1000000 = a /\ (n \div 1000) % 1000 = b /\ n % 1000 = c
  <1>1. n \in Int /\ n \in 0..999999999 OBVIOUS
  <1>2. b * 1000 + c \in 0..999999 /\ n = 1000000 * a + (b * 1000 + c) OBVIOUS
  <1>3. n \div 1000000 = a BY <1>1, <1>2, SplitMillion
  <1>4. 1000 * a + b \in Int /\ n = 1000 * (1000 * a + b) + c OBVIOUS
  <1>5. n \div 1000 = 1000 * a + b /\ n % 1000 = c BY <1>1, <1>4, SplitThousand
  <1>6. (1000 * a + b) % 1000 = b BY <1>4, SplitThousand
  <1> QED BY <1>1, <1>3, <1>5, <1>6

(* What it says when there is nothing wrong, and when only the year is.              *)
LEMMA Verdict == ASSUME NEW tab, NEW g
                 PROVE  LET dateOk == IsDate(g.y, g.m, g.d)
                            timeOk == /\ g.h >= 0 /\ g.h < HPD /\ g.mi >= 0 /\ g.mi < MPH /\ g.s >= 0
                                      /\ (dateOk => g.s < MinuteLength(tab, DayNumber(g.y, g.m, g.d), g.h * MPH + g.mi))
                            subOk == g.ms < 1000 /\ g.us < 1000 /\ g.n < 1000
                            x == BuildOutcomes(tab, g)
                        IN /\ "ok" \in x <=> ~(g.y > MaxYear) /\ dateOk /\ timeOk /\ subOk
                           /\ "ok" \in x => x = {"ok"}
                           /\ x = {"oob"} => g.y > MaxYear
  BY DEF BuildOutcomes

LEMMA ReadsTo == ASSUME NEW g \in Fields, BuildableFields(g), "ok" \in BuildOutcomes(Tab, Filled(g))
                 PROVE  LET v == Built(Filled(g))
                            r == Filled(g)
                        IN /\ IsMoment(Tab, v)
                           /\ <<v.y, v.m, v.d, HourOf(v), MinuteOf(v), SecondOf(v)>> = <<r.y, r.m, r.d, r.h, r.mi, r.s>>
                           /\ v.ns \in 0..999999999
                           /\ <<v.ns \div 1000000, (v.ns \div 1000) % 1000, v.ns % 1000>> = <<r.ms, r.us, r.n>>
                           /\ v.p = FinestOf(g) - 1
  <1> DEFINE r == Filled(g)
             v == Built(r)
  <1>1. /\ r \in [y : Int, m : Int, d : Int, h : Int, mi : Int, s : Int, ms : Int, us : Int, n : Int, p : Int]
        /\ r.y = g[1] /\ g[1] \in Nat /\ r.ms = Given1(g, 7) /\ r.us = Given1(g, 8) /\ r.n = Given1(g, 9) /\ r.p = FinestOf(g) - 1 BY FilledTyped
  <1>2. r.ms \in Nat /\ r.us \in Nat /\ r.n \in Nat BY <1>1, GivenIs
  <1>o. "ok" \in BuildOutcomes(Tab, r) OBVIOUS
  <1> HIDE DEF r
  <1>3. r.ms < 1000 /\ r.us < 1000 /\ r.n < 1000 BY <1>o, Verdict
  <1>4. r.ms \in 0..999 /\ r.us \in 0..999 /\ r.n \in 0..999 BY <1>2, <1>3
  <1>5. IsMoment(Tab, v) /\ HourOf(v) = r.h /\ MinuteOf(v) = r.mi /\ SecondOf(v) = r.s /\ DateIn(v) = <<r.y, r.m, r.d>>
    <2>1. r.y >= 0 BY <1>1
    <2> QED BY <1>1, <1>o, <2>1, Given, BuildsShow
  <1>6. v.ns = r.ms * 1000000 + r.us * 1000 + r.n /\ v.p = r.p BY DEF Built
  <1> HIDE DEF v
  <1>7. v.ns \in 0..999999999 /\ v.ns \div 1000000 = r.ms /\ (v.ns \div 1000) % 1000 = r.us /\ v.ns % 1000 = r.n
    <2> DEFINE a == r.ms
               b == r.us
               c == r.n
               n == v.ns
    <2>1. a \in 0..999 /\ b \in 0..999 /\ c \in 0..999 /\ n = a * 1000000 + b * 1000 + c BY <1>4, <1>6
    <2> HIDE DEF a, b, c, n
    <2>2. n \in 0..999999999 /\ n \div 1000000 = a /\ (n \div 1000) % 1000 = b /\ n % 1000 = c BY <2>1, Thousands
    <2> QED BY <2>2 DEF a, b, c, n
  <1>8. v.y = r.y /\ v.m = r.m /\ v.d = r.d BY <1>5 DEF DateIn
  <1>9. v.p = FinestOf(g) - 1 BY <1>1, <1>6
  <1>10. /\ IsMoment(Tab, v)
         /\ <<v.y, v.m, v.d, HourOf(v), MinuteOf(v), SecondOf(v)>> = <<r.y, r.m, r.d, r.h, r.mi, r.s>>
         /\ v.ns \in 0..999999999
         /\ <<v.ns \div 1000000, (v.ns \div 1000) % 1000, v.ns % 1000>> = <<r.ms, r.us, r.n>>
         /\ v.p = FinestOf(g) - 1 BY <1>5, <1>7, <1>8, <1>9
  <1> QED BY <1>10 DEF v, r

(* C01, C02, C03.                                                                   *)
THEOREM BuildVerdicts == ASSUME Inv PROVE OneVerdict /\ YearTooLate
  <1>1. CASE out = {} BY <1>1 DEF OneVerdict, YearTooLate
  <1>2. CASE out # {}
    <2>1. f \in Fields /\ BuildableFields(f) /\ out = BuildOutcomes(Tab, Filled(f)) BY <1>2 DEF Inv
    <2>2. Filled(f).y = f[1] BY <2>1, FilledTyped
    <2> DEFINE g == Filled(f)
    <2> HIDE DEF g
    <2>3. ("ok" \in BuildOutcomes(Tab, g) => BuildOutcomes(Tab, g) = {"ok"}) /\ (BuildOutcomes(Tab, g) = {"oob"} => g.y > MaxYear) BY Verdict
    <2>4. (("ok" \in out) => out = {"ok"}) /\ (out = {"oob"} => f[1] > MaxYear) BY <2>1, <2>2, <2>3 DEF g
    <2> QED BY <2>4 DEF OneVerdict, YearTooLate
  <1> QED BY <1>1, <1>2

THEOREM BuildReadsBack == ASSUME Inv PROVE ReadsBack
  <1> SUFFICES ASSUME "ok" \in out PROVE ReadsBack BY DEF ReadsBack
  <1>1. f \in Fields /\ BuildableFields(f) /\ out = BuildOutcomes(Tab, Filled(f)) BY DEF Inv
  <1>2. "ok" \in BuildOutcomes(Tab, Filled(f)) BY <1>1
  <1>3. LET v == Built(Filled(f))
            r == Filled(f)
        IN /\ <<v.y, v.m, v.d, HourOf(v), MinuteOf(v), SecondOf(v)>> = <<r.y, r.m, r.d, r.h, r.mi, r.s>>
           /\ v.ns \in 0..999999999
           /\ <<v.ns \div 1000000, (v.ns \div 1000) % 1000, v.ns % 1000>> = <<r.ms, r.us, r.n>>
           /\ v.p = FinestOf(f) - 1 BY <1>1, <1>2, ReadsTo
  <1> QED BY <1>3 DEF ReadsBack, Value, Finest

THEOREM BuildStarts == ASSUME Inv PROVE StartOfPeriod
  <1> SUFFICES ASSUME "ok" \in out PROVE StartOfPeriod BY DEF StartOfPeriod
  <1>1. f \in Fields /\ BuildableFields(f) BY DEF Inv
  <1> DEFINE v == Built(Filled(f))
             q == FinestOf(f)
  <1>2. /\ q \in 1..9 /\ \A i \in 1..9 : i <= q <=> f[i] # -1 BY <1>1, FilledIs
  <1>3. /\ v.m = Given1(f, 2) /\ v.d = Given1(f, 3) /\ v.sod = 60 * (60 * Given1(f, 4) + Given1(f, 5)) + Given1(f, 6)
        /\ v.ns = Given1(f, 7) * 1000000 + Given1(f, 8) * 1000 + Given1(f, 9) BY <1>1, FilledTyped, Units DEF Built
  <1> HIDE DEF v, q
  <1>4. q < 2 => v.m = 1
    <2> SUFFICES ASSUME q < 2 PROVE v.m = 1 OBVIOUS
    <2>1. f[2] = -1 BY <1>2
    <2> QED BY <1>1, <1>3, <2>1, GivenIs
  <1>5. q < 3 => v.d = 1
    <2> SUFFICES ASSUME q < 3 PROVE v.d = 1 OBVIOUS
    <2>1. f[3] = -1 BY <1>2
    <2> QED BY <1>1, <1>3, <2>1, GivenIs
  <1>6. q < 4 => v.sod = 0
    <2> SUFFICES ASSUME q < 4 PROVE v.sod = 0 OBVIOUS
    <2>1. f[4] = -1 /\ f[5] = -1 /\ f[6] = -1 BY <1>2
    <2>2. Given1(f, 4) = 0 /\ Given1(f, 5) = 0 /\ Given1(f, 6) = 0 BY <1>1, <2>1, GivenIs
    <2> QED BY <1>3, <2>2
  <1>7. q < 7 => v.ns = 0
    <2> SUFFICES ASSUME q < 7 PROVE v.ns = 0 OBVIOUS
    <2>1. f[7] = -1 /\ f[8] = -1 /\ f[9] = -1 BY <1>2
    <2>2. Given1(f, 7) = 0 /\ Given1(f, 8) = 0 /\ Given1(f, 9) = 0 BY <1>1, <2>1, GivenIs
    <2> QED BY <1>3, <2>2
  <1>8. (q < 2 => v.m = 1) /\ (q < 3 => v.d = 1) /\ (q < 4 => v.sod = 0) /\ (q < 7 => v.ns = 0) BY <1>4, <1>5, <1>6, <1>7
  <1> QED BY <1>8 DEF StartOfPeriod, Value, Finest, v, q

THEOREM BuiltAlways == Spec => [](OneVerdict /\ YearTooLate /\ ReadsBack /\ StartOfPeriod)
  <1>1. Init => Inv BY StartsSo
  <1>2. Inv /\ [Next]_bvars => Inv' BY StaysSo
  <1>3. Inv => OneVerdict /\ YearTooLate /\ ReadsBack /\ StartOfPeriod BY BuildVerdicts, BuildReadsBack, BuildStarts
  <1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec

THEOREM BuilderKept == Spec => BuildKeeps
  <1>1. [Next]_bvars => [out' # {} => f' = f]_bvars BY DEF Next, Set, Build
  <1> QED BY <1>1, PTL DEF Spec, BuildKeeps
=============================================================================
