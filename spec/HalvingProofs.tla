--------------------------- MODULE HalvingProofs ---------------------------
EXTENDS Integers, Sequences, Halving, TLAPS

Sorted(tab) ==
  /\ Len(tab) \in Int
  /\ \A i \in 1..Len(tab) : tab[i][1] \in Int
  /\ \A i, j \in 1..Len(tab) : i < j => tab[i][1] < tab[j][1]

(* The search narrows <<lo, hi>> down to the last entry before day D.              *)
Within(tab, D, r) ==
  /\ r \in Int \X Int /\ 1 <= r[1] /\ r[1] <= r[2] /\ r[2] <= Len(tab)
  /\ tab[r[1]][1] < D
  /\ \A j \in 1..Len(tab) : j > r[2] => tab[j][1] >= D

LEMMA Middle == ASSUME NEW x \in Int, NEW y \in Int, NEW w \in Nat, x < y, y - x <= w
                PROVE  LET mid == (x + y + 1) \div 2
                       IN mid \in Int /\ x < mid /\ mid <= y /\ y - mid <= w \div 2 /\ mid - 1 - x <= w \div 2
  OBVIOUS

LEMMA Halves == ASSUME NEW tab, Sorted(tab), NEW D \in Int, NEW r, Within(tab, D, r), NEW w \in Nat, r[2] - r[1] <= w
                PROVE  Within(tab, D, Halved(tab, D, r)) /\ Halved(tab, D, r)[2] - Halved(tab, D, r)[1] <= w \div 2
  <1>s. /\ Len(tab) \in Int /\ \A i \in 1..Len(tab) : tab[i][1] \in Int
        /\ \A i, j \in 1..Len(tab) : i < j => tab[i][1] < tab[j][1] BY DEF Sorted
  <1>1. r[1] \in Int /\ r[2] \in Int BY DEF Within
  <1>2. CASE r[1] >= r[2]
    <2>1. Halved(tab, D, r) = r BY <1>1, <1>2 DEF Halved
    <2>2. Halved(tab, D, r)[2] - Halved(tab, D, r)[1] = 0 BY <2>1, <1>1, <1>2 DEF Within
    <2> QED BY <2>1, <2>2
  <1>3. CASE r[1] < r[2]
    <2> DEFINE mid == (r[1] + r[2] + 1) \div 2
    <2>1. mid \in Int /\ r[1] < mid /\ mid <= r[2] /\ r[2] - mid <= w \div 2 /\ mid - 1 - r[1] <= w \div 2 BY <1>1, <1>3, Middle
    <2> HIDE DEF mid
    <2>2. Len(tab) \in Int /\ mid \in 1..Len(tab) /\ tab[mid][1] \in Int BY <2>1, <1>1, <1>s DEF Within
    <2>3. CASE tab[mid][1] < D
      <3>1. Halved(tab, D, r) = <<mid, r[2]>> BY <1>1, <1>3, <2>3 DEF Halved, mid
      <3> QED BY <3>1, <2>1, <2>2, <2>3, <1>1 DEF Within
    <2>4. CASE ~(tab[mid][1] < D)
      <3>1. Halved(tab, D, r) = <<r[1], mid - 1>> BY <1>1, <1>3, <2>4 DEF Halved, mid
      <3>2. \A j \in 1..Len(tab) : j > mid - 1 => tab[j][1] >= D
        <4> SUFFICES ASSUME NEW j \in 1..Len(tab), j >= mid PROVE tab[j][1] >= D BY <2>1
        <4>1. tab[j][1] \in Int BY <1>s
        <4>2. CASE j = mid BY <4>2, <2>4, <4>1
        <4>3. CASE j > mid BY <4>3, <4>1, <2>2, <2>4, <1>s
        <4> QED BY <4>2, <4>3, <2>1, <2>2
      <3> QED BY <3>1, <3>2, <2>1, <2>2, <1>1 DEF Within
    <2> QED BY <2>3, <2>4
  <1> QED BY <1>1, <1>2, <1>3
============================================================================
