------------------------------ MODULE Induction ------------------------------
(* Induction over the natural numbers, said of sets.                               *)
EXTENDS Integers, NaturalsInduction, TLAPS

LEMMA Holds == ASSUME NEW f, f[0], \A n \in Nat : f[n] => f[n + 1]
               PROVE  \A n \in Nat : f[n]
  <1> DEFINE P(n) == f[n]
  <1>1. P(0) OBVIOUS
  <1>2. \A n \in Nat : P(n) => P(n + 1) OBVIOUS
  <1>3. \A n \in Nat : P(n)
    <2> HIDE DEF P
    <2> QED BY <1>1, <1>2, NatInduction, Isa
  <1> QED BY <1>3

LEMMA AllNaturals == \A S \in SUBSET Nat : (0 \in S /\ \A n \in S : n + 1 \in S) => S = Nat
  <1> SUFFICES ASSUME NEW S \in SUBSET Nat, 0 \in S, \A n \in S : n + 1 \in S PROVE \A n \in Nat : n \in S OBVIOUS
  <1> DEFINE f == [n \in Nat |-> n \in S]
  <1>1. f[0] /\ \A n \in Nat : f[n] => f[n + 1] OBVIOUS
  <1> HIDE DEF f
  <1>2. \A n \in Nat : f[n] BY <1>1, Holds
  <1> QED BY <1>2 DEF f
=============================================================================
