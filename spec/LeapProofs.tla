----------------------------- MODULE LeapProofs -----------------------------
(* What LeapSeconds.tla says of any well-formed table and any day, proved with   *)
(* TLAPS: its lookups find what the table's definition says, and elapsed seconds  *)
(* and seconds of days are the same thing.                                         *)
EXTENDS Integers, Sequences, LeapSeconds, HalvingProofs, Induction, TLAPS

Tables == Seq(Int \X Int \X Int)
IsTable(tab) == tab \in Tables /\ WellFormed(tab)

LEMMA EntryTypes == ASSUME NEW tab, IsTable(tab)
                    PROVE /\ Len(tab) \in Int /\ Len(tab) >= 1 /\ Len(tab) <= 127 /\ DOMAIN tab = 1..Len(tab)
                          /\ \A i \in 1..Len(tab) : /\ tab[i][1] \in Int /\ tab[i][2] \in {-1, 1} /\ tab[i][3] \in Int
                                                    /\ tab[i][1] >= 0
                                                    /\ i > 1 => tab[i - 1][1] < tab[i][1]
                                                    /\ tab[i][3] = tab[i][2] + (IF i = 1 THEN 0 ELSE tab[i - 1][3])
  <1>1. tab \in Seq(Int \X Int \X Int) BY DEF IsTable, Tables
  <1>2. \A i \in 1..Len(tab) : tab[i] \in Int \X Int \X Int BY <1>1
  <1> QED BY <1>1, <1>2 DEF IsTable, WellFormed, MostEntries

LEMMA Increasing == ASSUME NEW tab, IsTable(tab)
                    PROVE \A i, j \in 1..Len(tab) : i < j => tab[i][1] < tab[j][1]
  <1> DEFINE P(n) == \A i \in 1..Len(tab) : (i + n + 1 <= Len(tab)) => tab[i][1] < tab[i + n + 1][1]
  <1>1. P(0)
    <2>1. \A i \in 1..Len(tab) : i + 0 + 1 <= Len(tab) => i + 1 \in 1..Len(tab) /\ i + 0 + 1 = i + 1 /\ i + 1 > 1 /\ (i + 1) - 1 = i BY EntryTypes
    <2> QED BY <2>1, EntryTypes
  <1>2. ASSUME NEW n \in Nat, P(n) PROVE P(n + 1)
    <2> SUFFICES ASSUME NEW i \in 1..Len(tab), i + (n + 1) + 1 <= Len(tab) PROVE tab[i][1] < tab[i + (n + 1) + 1][1] OBVIOUS
    <2>0. Len(tab) \in Int BY EntryTypes
    <2>1. tab[i][1] < tab[i + n + 1][1] BY <1>2, <2>0
    <2> DEFINE j == i + (n + 1) + 1
    <2>2. j \in 1..Len(tab) /\ j > 1 /\ j - 1 = i + n + 1 /\ i + n + 1 \in 1..Len(tab) BY <2>0
    <2> HIDE DEF j
    <2>3. tab[j - 1][1] < tab[j][1] /\ tab[j][1] \in Int /\ tab[j - 1][1] \in Int /\ tab[i][1] \in Int BY <2>2, EntryTypes
    <2> QED BY <2>1, <2>2, <2>3 DEF j
  <1>i. \A n \in Nat : P(n) => P(n + 1) BY <1>2
  <1> HIDE DEF P
  <1>3. \A n \in Nat : P(n)
    <2>1. {n \in Nat : P(n)} = Nat
      <3> DEFINE S == {n \in Nat : P(n)}
      <3>1. S \in SUBSET Nat /\ 0 \in S /\ \A n \in S : n + 1 \in S BY <1>1, <1>i
      <3> HIDE DEF S
      <3> QED BY <3>1, AllNaturals DEF S
    <2> QED BY <2>1
  <1> SUFFICES ASSUME NEW i \in 1..Len(tab), NEW j \in 1..Len(tab), i < j PROVE tab[i][1] < tab[j][1] OBVIOUS
  <1>4. Len(tab) \in Int BY EntryTypes
  <1>5. j - i - 1 \in Nat /\ i + (j - i - 1) + 1 = j BY <1>4
  <1>6. P(j - i - 1) BY <1>3, <1>5
  <1> QED BY <1>4, <1>5, <1>6 DEF P

LEMMA SearchFinds == ASSUME NEW tab, IsTable(tab), NEW D \in Int, tab[1][1] < D
                     PROVE  LET i == Search(tab, D, 1, Len(tab))
                            IN /\ i \in 1..Len(tab) /\ tab[i][1] < D
                               /\ \A j \in 1..Len(tab) : j > i => tab[j][1] >= D
  <1> DEFINE z == <<1, Len(tab)>>
             a == Halved(tab, D, z)
             b == Halved(tab, D, a)
             c == Halved(tab, D, b)
             d == Halved(tab, D, c)
             f == Halved(tab, D, d)
             g == Halved(tab, D, f)
             h == Halved(tab, D, g)
  <1>0. Len(tab) \in Int /\ Len(tab) >= 1 /\ Len(tab) <= 127 BY EntryTypes
  <1>s. Sorted(tab) BY EntryTypes, Increasing DEF Sorted
  <1>z. Within(tab, D, z) /\ z[2] - z[1] <= 127 BY <1>0 DEF Within
  <1> HIDE DEF z
  <1>a. Within(tab, D, a) /\ a[2] - a[1] <= 63 BY <1>z, <1>s, Halves, 127 \div 2 = 63
  <1> HIDE DEF a
  <1>b. Within(tab, D, b) /\ b[2] - b[1] <= 31 BY <1>a, <1>s, Halves, 63 \div 2 = 31
  <1> HIDE DEF b
  <1>c. Within(tab, D, c) /\ c[2] - c[1] <= 15 BY <1>b, <1>s, Halves, 31 \div 2 = 15
  <1> HIDE DEF c
  <1>d. Within(tab, D, d) /\ d[2] - d[1] <= 7 BY <1>c, <1>s, Halves, 15 \div 2 = 7
  <1> HIDE DEF d
  <1>f. Within(tab, D, f) /\ f[2] - f[1] <= 3 BY <1>d, <1>s, Halves, 7 \div 2 = 3
  <1> HIDE DEF f
  <1>g. Within(tab, D, g) /\ g[2] - g[1] <= 1 BY <1>f, <1>s, Halves, 3 \div 2 = 1
  <1> HIDE DEF g
  <1>h. Within(tab, D, h) /\ h[2] - h[1] <= 0 BY <1>g, <1>s, Halves, 1 \div 2 = 0
  <1> HIDE DEF h
  <1>1. Search(tab, D, 1, Len(tab)) = h[1] BY DEF Search, h, g, f, d, c, b, a, z
  <1>2. h[1] \in Int /\ h[2] \in Int /\ h[1] = h[2] BY <1>h DEF Within
  <1> QED BY <1>1, <1>2, <1>h, <1>0 DEF Within

(* Leap seconds before a day: the running total of the last entry before it.       *)
THEOREM AccumulatedIs ==
  ASSUME NEW tab, IsTable(tab), NEW D \in Int
  PROVE  \/ /\ \A i \in 1..Len(tab) : tab[i][1] >= D
            /\ Accumulated(tab, D) = 0
         \/ \E i \in 1..Len(tab) : /\ tab[i][1] < D
                                   /\ \A j \in 1..Len(tab) : j > i => tab[j][1] >= D
                                   /\ Accumulated(tab, D) = tab[i][3]
  <1>0. /\ Len(tab) \in Int /\ Len(tab) >= 1
        /\ \A i \in 1..Len(tab) : tab[i][1] \in Int BY EntryTypes
  <1>1. CASE D <= tab[1][1]
    <2>1. \A i \in 1..Len(tab) : tab[i][1] >= D
      <3> SUFFICES ASSUME NEW i \in 1..Len(tab) PROVE tab[i][1] >= D OBVIOUS
      <3>1. CASE i = 1 BY <3>1, <1>1, <1>0
      <3>2. CASE i > 1
        <4>1. tab[1][1] < tab[i][1] BY <3>2, <1>0, Increasing
        <4> QED BY <4>1, <1>1, <1>0
      <3> QED BY <3>1, <3>2, <1>0
    <2>2. Accumulated(tab, D) = 0 BY <1>0, <1>1 DEF Accumulated
    <2> QED BY <2>1, <2>2
  <1>2. CASE ~(D <= tab[1][1]) /\ D > tab[Len(tab)][1]
    <2>1. Accumulated(tab, D) = tab[Len(tab)][3] BY <1>0, <1>2 DEF Accumulated
    <2> QED BY <2>1, <1>0, <1>2
  <1>3. CASE ~(D <= tab[1][1]) /\ ~(D > tab[Len(tab)][1])
    <2>1. tab[1][1] < D BY <1>0, <1>3
    <2>2. Accumulated(tab, D) = tab[Search(tab, D, 1, Len(tab))][3] BY <1>0, <1>3 DEF Accumulated
    <2> QED BY <2>1, <2>2, SearchFinds
  <1> QED BY <1>1, <1>2, <1>3

THEOREM DeltaIs ==
  ASSUME NEW tab, IsTable(tab), NEW D \in Int
  PROVE  \/ /\ \A i \in 1..Len(tab) : tab[i][1] # D
            /\ Delta(tab, D) = 0
         \/ \E i \in 1..Len(tab) : tab[i][1] = D /\ Delta(tab, D) = tab[i][2]
  <1>0. /\ Len(tab) \in Int /\ Len(tab) >= 1
        /\ \A i \in 1..Len(tab) : tab[i][1] \in Int BY EntryTypes
  <1>1. CASE D < tab[1][1] \/ D > tab[Len(tab)][1]
    <2>1. \A i \in 1..Len(tab) : tab[i][1] # D
      <3> SUFFICES ASSUME NEW i \in 1..Len(tab), tab[i][1] = D PROVE FALSE OBVIOUS
      <3>1. i = 1 \/ tab[1][1] < tab[i][1] BY <1>0, Increasing
      <3>2. i = Len(tab) \/ tab[i][1] < tab[Len(tab)][1] BY <1>0, Increasing
      <3> QED BY <3>1, <3>2, <1>0, <1>1
    <2>2. Delta(tab, D) = 0 BY <1>0, <1>1 DEF Delta
    <2> QED BY <2>1, <2>2
  <1>2. CASE ~(D < tab[1][1] \/ D > tab[Len(tab)][1])
    <2>1. tab[1][1] < D + 1 BY <1>0, <1>2
    <2> DEFINE i == Search(tab, D + 1, 1, Len(tab))
    <2>2. /\ i \in 1..Len(tab) /\ tab[i][1] < D + 1
          /\ \A j \in 1..Len(tab) : j > i => tab[j][1] >= D + 1 BY <2>1, SearchFinds, D + 1 \in Int
    <2>3. Delta(tab, D) = IF tab[i][1] = D THEN tab[i][2] ELSE 0 BY <1>0, <1>2 DEF Delta
    <2> HIDE DEF i
    <2>4. CASE tab[i][1] = D BY <2>2, <2>3, <2>4
    <2>5. CASE tab[i][1] # D
      <3>1. \A j \in 1..Len(tab) : tab[j][1] # D
        <4> SUFFICES ASSUME NEW j \in 1..Len(tab), tab[j][1] = D PROVE FALSE OBVIOUS
        <4>1. ~(j > i) BY <2>2, <1>0
        <4>2. j # i BY <2>5
        <4>3. tab[j][1] < tab[i][1] BY <4>1, <4>2, <2>2, <1>0, Increasing
        <4> QED BY <4>3, <2>2, <1>0
      <3> QED BY <3>1, <2>3, <2>5
    <2> QED BY <2>4, <2>5
  <1> QED BY <1>1, <1>2

(* A day's leap seconds are there from the next day on.                            *)
THEOREM AccumulatedStep ==
  ASSUME NEW tab, IsTable(tab), NEW D \in Int
  PROVE  Accumulated(tab, D + 1) = Accumulated(tab, D) + Delta(tab, D)
  <1>0. /\ Len(tab) \in Int /\ Len(tab) >= 1 /\ D + 1 \in Int
        /\ \A i \in 1..Len(tab) : tab[i][1] \in Int /\ tab[i][2] \in Int /\ tab[i][3] \in Int
                                  /\ tab[i][3] = tab[i][2] + (IF i = 1 THEN 0 ELSE tab[i - 1][3]) BY EntryTypes
  <1>1. CASE \A i \in 1..Len(tab) : tab[i][1] # D
    <2>1. Delta(tab, D) = 0 BY <1>1, DeltaIs
    <2>2. \A i \in 1..Len(tab) : tab[i][1] < D <=> tab[i][1] < D + 1 BY <1>0, <1>1
    <2>3. Accumulated(tab, D + 1) = Accumulated(tab, D)
      <3>1. CASE \A i \in 1..Len(tab) : tab[i][1] >= D
        <4>1. \A i \in 1..Len(tab) : tab[i][1] >= D + 1 BY <1>0, <1>1, <3>1
        <4>2. Accumulated(tab, D) = 0 BY <3>1, <1>0, AccumulatedIs
        <4>3. Accumulated(tab, D + 1) = 0 BY <4>1, <1>0, AccumulatedIs
        <4> QED BY <4>2, <4>3
      <3>2. CASE ~ \A i \in 1..Len(tab) : tab[i][1] >= D
        <4>1. PICK i \in 1..Len(tab) : /\ tab[i][1] < D
                                       /\ \A j \in 1..Len(tab) : j > i => tab[j][1] >= D
                                       /\ Accumulated(tab, D) = tab[i][3] BY <3>2, AccumulatedIs
        <4>2. PICK k \in 1..Len(tab) : /\ tab[k][1] < D + 1
                                       /\ \A j \in 1..Len(tab) : j > k => tab[j][1] >= D + 1
                                       /\ Accumulated(tab, D + 1) = tab[k][3]
          <5>1. ~ \A j \in 1..Len(tab) : tab[j][1] >= D + 1 BY <4>1, <1>0
          <5> QED BY <5>1, <1>0, AccumulatedIs
        <4>3. ~(i < k) BY <4>1, <4>2, <2>2, <1>0
        <4>4. ~(k < i) BY <4>1, <4>2, <2>2, <1>0
        <4> QED BY <4>1, <4>2, <4>3, <4>4, <1>0
      <3> QED BY <3>1, <3>2
    <2>4. Accumulated(tab, D) \in Int BY AccumulatedIs, <1>0
    <2> QED BY <2>1, <2>3, <2>4
  <1>2. CASE ~ \A i \in 1..Len(tab) : tab[i][1] # D
    <2>1. PICK i \in 1..Len(tab) : tab[i][1] = D /\ Delta(tab, D) = tab[i][2] BY <1>2, DeltaIs
    <2>2. \A j \in 1..Len(tab) : j > i => tab[j][1] > D BY <2>1, <1>0, Increasing
    <2>3. \A j \in 1..Len(tab) : j < i => tab[j][1] < D BY <2>1, <1>0, Increasing
    <2>4. Accumulated(tab, D + 1) = tab[i][3]
      <3>1. PICK k \in 1..Len(tab) : /\ tab[k][1] < D + 1
                                     /\ \A j \in 1..Len(tab) : j > k => tab[j][1] >= D + 1
                                     /\ Accumulated(tab, D + 1) = tab[k][3]
        <4>1. ~ \A j \in 1..Len(tab) : tab[j][1] >= D + 1 BY <2>1, <1>0
        <4> QED BY <4>1, <1>0, AccumulatedIs
      <3>2. ~(k > i)
        <4> SUFFICES ASSUME k > i PROVE FALSE OBVIOUS
        <4>1. tab[k][1] > D BY <2>2
        <4>2. tab[k][1] < D + 1 /\ tab[k][1] \in Int BY <3>1, <1>0
        <4> QED BY <4>1, <4>2
      <3>3. ~(i > k) BY <3>1, <2>1, <1>0
      <3> QED BY <3>1, <3>2, <3>3, <1>0
    <2>5. CASE i = 1
      <3>1. \A j \in 1..Len(tab) : tab[j][1] >= D BY <2>1, <2>2, <2>5, <1>0
      <3>2. Accumulated(tab, D) = 0 BY <3>1, <1>0, AccumulatedIs
      <3> QED BY <3>2, <2>1, <2>4, <2>5, <1>0
    <2>6. CASE i > 1
      <3>1. i - 1 \in 1..Len(tab) /\ tab[i - 1][1] < D BY <2>3, <2>6, <1>0
      <3>2. PICK k \in 1..Len(tab) : /\ tab[k][1] < D
                                     /\ \A j \in 1..Len(tab) : j > k => tab[j][1] >= D
                                     /\ Accumulated(tab, D) = tab[k][3]
        <4>1. ~ \A j \in 1..Len(tab) : tab[j][1] >= D BY <3>1, <1>0
        <4> QED BY <4>1, AccumulatedIs
      <3>3. ~(k >= i) BY <3>2, <2>1, <2>2, <1>0
      <3>4. ~(k < i - 1) BY <3>1, <3>2, <1>0
      <3>5. k = i - 1 BY <3>3, <3>4, <1>0
      <3> QED BY <3>2, <3>5, <2>1, <2>4, <2>6, <1>0
    <2> QED BY <2>5, <2>6, <1>0
  <1> QED BY <1>1, <1>2

(* Running totals never come near a day.                                           *)
LEMMA TotalsSmall == ASSUME NEW tab, IsTable(tab)
                     PROVE \A i \in 1..Len(tab) : tab[i][3] <= 127 /\ tab[i][3] >= -127
  <1> DEFINE P(n) == \A i \in 1..Len(tab) : i = n + 1 => tab[i][3] <= i /\ tab[i][3] >= -i
  <1>0. /\ Len(tab) \in Int /\ Len(tab) >= 1 /\ Len(tab) <= 127
        /\ \A i \in 1..Len(tab) : tab[i][2] \in {-1, 1} /\ tab[i][3] \in Int
                                  /\ tab[i][3] = tab[i][2] + (IF i = 1 THEN 0 ELSE tab[i - 1][3]) BY EntryTypes
  <1>1. P(0) BY <1>0
  <1>2. ASSUME NEW n \in Nat, P(n) PROVE P(n + 1)
    <2> SUFFICES ASSUME NEW i \in 1..Len(tab), i = n + 2 PROVE tab[i][3] <= i /\ tab[i][3] >= -i BY <1>0
    <2>1. i - 1 \in 1..Len(tab) /\ i - 1 = n + 1 /\ i # 1 BY <1>0
    <2>2. tab[i - 1][3] <= i - 1 /\ tab[i - 1][3] >= -(i - 1) /\ tab[i - 1][3] \in Int BY <2>1, <1>2, <1>0
    <2> QED BY <2>1, <2>2, <1>0
  <1>i. \A n \in Nat : P(n) => P(n + 1) BY <1>2
  <1> HIDE DEF P
  <1>3. \A n \in Nat : P(n)
    <2>1. {n \in Nat : P(n)} = Nat
      <3> DEFINE S == {n \in Nat : P(n)}
      <3>1. S \in SUBSET Nat /\ 0 \in S /\ \A n \in S : n + 1 \in S BY <1>1, <1>i
      <3> HIDE DEF S
      <3> QED BY <3>1, AllNaturals DEF S
    <2> QED BY <2>1
  <1> SUFFICES ASSUME NEW i \in 1..Len(tab) PROVE tab[i][3] <= 127 /\ tab[i][3] >= -127 OBVIOUS
  <1>4. i - 1 \in Nat /\ i = (i - 1) + 1 BY <1>0
  <1>5. P(i - 1) BY <1>3, <1>4
  <1>6. tab[i][3] <= i /\ tab[i][3] >= -i BY <1>4, <1>5 DEF P
  <1> QED BY <1>6, <1>0
THEOREM AccumulatedSmall == ASSUME NEW tab, IsTable(tab), NEW D \in Int
                            PROVE  /\ Accumulated(tab, D) \in Int
                                   /\ Accumulated(tab, D) <= 127 /\ Accumulated(tab, D) >= -127
                                   /\ Delta(tab, D) \in {-1, 0, 1}
  <1>1. \A i \in 1..Len(tab) : tab[i][2] \in {-1, 1} /\ tab[i][3] \in Int BY EntryTypes
  <1>2. Accumulated(tab, D) = 0 \/ \E i \in 1..Len(tab) : Accumulated(tab, D) = tab[i][3] BY AccumulatedIs
  <1>3. Delta(tab, D) = 0 \/ \E i \in 1..Len(tab) : Delta(tab, D) = tab[i][2] BY DeltaIs
  <1> QED BY <1>1, <1>2, <1>3, TotalsSmall
=============================================================================
