---------------------------- MODULE TimelineWorld ----------------------------
(* Every instant, and every pair of them, of tiny tick types and scales, with    *)
(* the operations of Timeline.tla as transitions between them. The laws users    *)
(* rely on are checked in every state.                                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Types,    \* tick types
          Scales,   \* ticks per second; each divides the next
          Low(_), High(_)

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ITimes(a, b) == a * b
ILeq(a, b) == a <= b
T == INSTANCE Timeline WITH Plus <- IPlus, Minus <- IMinus, Times <- ITimes, Leq <- ILeq,
                            Nil <- 0, Unit <- 1, Lo <- Low, Hi <- High

VARIABLES x,   \* an instant [t, s, a]: tick type, scale, ticks
          d    \* a duration in ticks, of the same type and scale
vars == <<x, d>>

Values(t) == Low(t)..High(t)
Instants == UNION {[t : {t}, s : Scales, a : Values(t)] : t \in Types}
Coarser(s) == {z \in Scales : z <= s}
Finer(s) == {z \in Scales : z >= s}

TypeOK == x \in Instants /\ d \in Values(x.t)

(* The registers may hold anything: chosen in two steps so that TLC's workers    *)
(* share the work.                                                                *)
Init == /\ \E t \in Types, s \in Scales : x = [t |-> t, s |-> s, a |-> 0]
        /\ d = 0
SetX == d = 0 /\ \E a \in Values(x.t) : x' = [x EXCEPT !.a = a] /\ UNCHANGED d
SetD == d = 0 /\ d' \in Values(x.t) /\ UNCHANGED x

Floors(a, k) == {q \in (-32)..31 : T!IsFloor(q, a, k)}

Move == /\ T!CheckedAdd(x.t, x.a, d) # T!Absent
        /\ x' = [x EXCEPT !.a = T!CheckedAdd(x.t, x.a, d)[2]]
        /\ UNCHANGED d
Flooring == /\ \E z \in Coarser(x.s) : \E q \in Floors(x.a, x.s \div z) :
                 x' = [x EXCEPT !.s = z, !.a = q]
            /\ d' = 0
Extending == /\ \E z \in Finer(x.s), t \in Types :
                  LET r == T!Extended(t, x.a, z \div x.s)
                  IN r # T!Absent /\ x' = [t |-> t, s |-> z, a |-> r[2]]
             /\ d' = 0
Converting == /\ \E t \in Types : T!Converted(t, x.a) # T!Absent /\ x' = [x EXCEPT !.t = t]
              /\ d' = 0
Next == SetX \/ SetD \/ Move \/ Flooring \/ Extending \/ Converting
Spec == Init /\ [][Next]_vars

(* C15 *)
AddSub == LET r == T!CheckedAdd(x.t, x.a, d)
          IN r # T!Absent => T!InstantSub(x.t, r[2], x.a) = T!Is(d)
SubAdd == \A b \in Values(x.t) :
            LET r == T!InstantSub(x.t, b, x.a)
            IN r # T!Panic => T!InstantAdd(x.t, x.a, r[2]) = T!Is(b)
EpochAdd == (0 \in Values(x.t)) => T!InstantAdd(x.t, 0, x.a) = T!Is(x.a)
(* C16 *)
FloorOnce == d = 0 => \A z \in Coarser(x.s) : Cardinality(Floors(x.a, x.s \div z)) = 1
FloorBelow == d = 0 => \A z \in Coarser(x.s) : \A q \in Floors(x.a, x.s \div z) :
   /\ q \in Values(x.t)
   /\ T!Order(q, z, x.a, x.s) <= 0
   /\ \A b \in Values(x.t) : T!Order(b, z, x.a, x.s) <= 0 => b <= q
SplitParts == d = 0 => \A z \in Coarser(x.s) : \A q \in Floors(x.a, x.s \div z) :
   LET r == x.a - q * (x.s \div z)
   IN T!IsSplit(q, r, x.a, x.s \div z) /\ r >= 0 /\ r < x.s \div z
ExtendFloor == d = 0 => \A z \in Finer(x.s), t \in Types :
   LET r == T!Extended(t, x.a, z \div x.s)
   IN r # T!Absent => /\ T!Order(r[2], z, x.a, x.s) = 0
                      /\ Floors(r[2], z \div x.s) = {x.a}
(* C17 *)
ConvertSame == d = 0 => \A t \in Types :
   LET r == T!Converted(t, x.a)
   IN /\ r # T!Absent <=> x.a \in Values(t)
      /\ r # T!Absent => r[2] = x.a /\ T!Converted(x.t, r[2]) = T!Is(x.a)
(* C18 *)
OrderTotal == d = 0 => \A y \in Instants :
   LET o == T!Order(x.a, x.s, y.a, y.s)
   IN /\ o = -T!Order(y.a, y.s, x.a, x.s)
      /\ (x.s = y.s) => (o = 0 <=> x.a = y.a) /\ (o < 0 <=> x.a < y.a)
      /\ T!Order(x.a, x.s, x.a, x.s) = 0
OrderTransitive == d = 0 => \A y, z \in Instants :
   (T!Order(x.a, x.s, y.a, y.s) <= 0 /\ T!Order(y.a, y.s, z.a, z.s) <= 0)
      => T!Order(x.a, x.s, z.a, z.s) <= 0
(* C19 *)
(* The quotient exists, is unique, and is the one rounded down (or up).          *)
DivideRounds == d # 0 => \A z \in Coarser(x.s) :
   LET b == d
       m == b * (x.s \div z)
   IN \A q \in (-40)..40 :
        LET r == x.a - q * m
            r2 == q * m - x.a
        IN /\ T!IsQuotFloor(q, r, x.a, b, x.s \div z)
                <=> (IF m > 0 THEN q * m <= x.a /\ (q + 1) * m > x.a
                              ELSE q * m >= x.a /\ (q + 1) * m < x.a)
           /\ T!IsQuotCeil(q, r2, x.a, b, x.s \div z)
                <=> (IF m > 0 THEN q * m >= x.a /\ (q - 1) * m < x.a
                              ELSE q * m <= x.a /\ (q - 1) * m > x.a)
=============================================================================
