--------------------------- MODULE TimelineProofs ---------------------------
(* The laws of Timeline.tla for all integers, tick types (any range of integers) *)
(* and scales, proved with TLAPS. TimelineWorld.tla has TLC check them of tiny    *)
(* tick types, by other definitions.                                               *)
EXTENDS Integers, TLAPS

CONSTANTS Low(_), High(_)

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ITimes(a, b) == a * b
ILeq(a, b) == a <= b
T == INSTANCE Timeline WITH Plus <- IPlus, Minus <- IMinus, Times <- ITimes, Leq <- ILeq,
                            Nil <- 0, Unit <- 1, Lo <- Low, Hi <- High

IsType(t) == Low(t) \in Int /\ High(t) \in Int /\ Low(t) <= 0 /\ 0 <= High(t)

(* ---- arithmetic ---- *)
LEMMA Positive == ASSUME NEW x \in Int, NEW y \in Int, x >= 0, y >= 0 PROVE x * y >= 0
  BY Z3
LEMMA Monotone == ASSUME NEW x \in Int, NEW y \in Int, NEW k \in Int, k >= 0, x <= y PROVE x * k <= y * k
  <1>1. (y - x) * k >= 0 BY Positive
  <1>2. (y - x) * k = y * k - x * k BY Z3
  <1> QED BY <1>1, <1>2
LEMMA Cancels == ASSUME NEW x \in Int, NEW y \in Int, NEW k \in Int, k > 0, x * k <= y * k PROVE x <= y
  <1> SUFFICES ASSUME x >= y + 1 PROVE FALSE BY Z3
  <1>1. (y + 1) * k <= x * k BY Monotone
  <1>2. (y + 1) * k = y * k + k BY Z3
  <1> QED BY <1>1, <1>2

(* ---- C15 ---- *)
THEOREM AddSub == \A t, a, d, x : /\ IsType(t) /\ a \in Int /\ d \in Int /\ T!Fits(t, a) /\ T!Fits(t, d)
                                  /\ T!CheckedAdd(t, a, d) = T!Is(x)
                               => x = a + d /\ T!Fits(t, x) /\ T!InstantSub(t, x, a) = T!Is(d)
  BY DEF IsType, T!Fits, T!CheckedAdd, T!InstantSub, T!Is, T!Absent, T!Panic, IPlus, IMinus, ILeq
THEOREM SubAdd == \A t, i, j, x : /\ IsType(t) /\ i \in Int /\ j \in Int /\ T!Fits(t, i) /\ T!Fits(t, j)
                                  /\ T!InstantSub(t, j, i) = T!Is(x)
                               => x = j - i /\ T!Fits(t, x) /\ T!InstantAdd(t, i, x) = T!Is(j)
  BY DEF IsType, T!Fits, T!InstantAdd, T!InstantSub, T!Is, T!Absent, T!Panic, IPlus, IMinus, ILeq
THEOREM EpochAdd == \A t, a : IsType(t) /\ a \in Int /\ T!Fits(t, a)
                           => T!InstantAdd(t, 0, a) = T!Is(a) /\ T!InstantSub(t, a, 0) = T!Is(a)
  BY DEF IsType, T!Fits, T!InstantAdd, T!InstantSub, T!Is, T!Panic, IPlus, IMinus, ILeq
THEOREM AddReports == \A t, a, d : /\ IsType(t) /\ a \in Int /\ d \in Int
                                => /\ T!CheckedAdd(t, a, d) = T!Absent <=> ~T!Fits(t, a + d)
                                   /\ T!InstantAdd(t, a, d) = T!Panic <=> T!CheckedAdd(t, a, d) = T!Absent
  BY DEF IsType, T!Fits, T!InstantAdd, T!CheckedAdd, T!Is, T!Absent, T!Panic, IPlus, IMinus, ILeq

(* ---- C16 ---- *)
THEOREM FloorExists == ASSUME NEW a \in Int, NEW k \in Int, k >= 1
                       PROVE  \E q \in Int : T!IsFloor(q, a, k)
  <1> DEFINE q == a \div k
             r == a % k
  <1>1. q \in Int /\ r \in Int /\ r >= 0 /\ r < k /\ a = k * q + r BY Z3
  <1> HIDE DEF q, r
  <1>2. q * k = k * q /\ (q + 1) * k = k * q + k BY <1>1, Z3
  <1>3. T!IsFloor(q, a, k) BY <1>1, <1>2 DEF T!IsFloor, T!Less, IPlus, ITimes, ILeq
  <1> QED BY <1>1, <1>3

THEOREM FloorGreatest == ASSUME NEW a \in Int, NEW k \in Int, k >= 1, NEW q \in Int, NEW p \in Int,
                                T!IsFloor(q, a, k), p * k <= a
                         PROVE  p <= q
  <1> SUFFICES ASSUME q + 1 <= p PROVE FALSE BY Z3
  <1>1. (q + 1) * k <= p * k BY Monotone
  <1>2. a < (q + 1) * k BY Z3 DEF T!IsFloor, T!Less, IPlus, ITimes, ILeq
  <1> QED BY <1>1, <1>2, Z3

THEOREM FloorUnique == ASSUME NEW a \in Int, NEW k \in Int, k >= 1, NEW q \in Int, NEW p \in Int,
                              T!IsFloor(q, a, k), T!IsFloor(p, a, k)
                       PROVE  q = p
  <1>1. q * k <= a /\ p * k <= a BY DEF T!IsFloor, ITimes, ILeq
  <1> QED BY <1>1, FloorGreatest

THEOREM FloorFits == ASSUME NEW t, IsType(t), NEW a \in Int, NEW k \in Int, k >= 1, NEW q \in Int,
                            T!Fits(t, a), T!IsFloor(q, a, k)
                     PROVE  T!Fits(t, q)
  <1>1. q * k <= a /\ a < (q + 1) * k BY DEF T!IsFloor, T!Less, IPlus, ITimes, ILeq
  <1>2. CASE a >= 0
    <2>1. 0 * k <= a /\ 0 * k = 0 BY <1>2, Z3
    <2>2. 0 <= q BY <2>1, FloorGreatest
    <2>3. q * 1 <= q * k
      <3>1. (k - 1) * q >= 0 BY <2>2, Positive
      <3>2. (k - 1) * q = q * k - q BY Z3
      <3> QED BY <3>1, <3>2
    <2>4. q <= a BY <1>1, <2>3
    <2> QED BY <2>2, <2>4 DEF T!Fits, IsType, ILeq
  <1>3. CASE a < 0
    <2>1. q < 0
      <3> SUFFICES ASSUME q >= 0 PROVE FALSE OBVIOUS
      <3>1. q * k >= 0 BY Positive
      <3> QED BY <3>1, <1>1, <1>3
    <2>2. a * k <= a
      <3>1. (k - 1) * (0 - a) >= 0 BY <1>3, Positive
      <3>2. (k - 1) * (0 - a) = a - a * k BY Z3
      <3> QED BY <3>1, <3>2
    <2>3. a <= q BY <2>2, FloorGreatest
    <2> QED BY <2>1, <2>3 DEF T!Fits, IsType, ILeq
  <1> QED BY <1>2, <1>3

THEOREM SplitParts == ASSUME NEW a \in Int, NEW k \in Int, k >= 1, NEW q \in Int, NEW r \in Int
                      PROVE  T!IsSplit(q, r, a, k) <=> (r = a - q * k /\ 0 <= r /\ r < k)
  <1>1. (q + 1) * k = q * k + k BY Z3
  <1>2. q * k \in Int BY Z3
  <1> QED BY <1>1, <1>2 DEF T!IsSplit, T!IsFloor, T!Less, IPlus, ITimes, ILeq

THEOREM ExtendFloor == ASSUME NEW t, IsType(t), NEW a \in Int, NEW k \in Int, k >= 1, NEW x, T!Extended(t, a, k) = T!Is(x)
                       PROVE  x = a * k /\ T!Fits(t, x) /\ T!IsFloor(a, x, k)
  <1>1. (a + 1) * k = a * k + k /\ a * k \in Int BY Z3
  <1> QED BY <1>1 DEF T!Extended, T!Fits, T!Is, T!Absent, T!IsFloor, T!Less, IPlus, ITimes, ILeq, IsType

(* ---- C17 ---- *)
THEOREM ConvertSame == \A t, u, a : IsType(t) /\ IsType(u) /\ a \in Int /\ T!Fits(t, a)
                          => /\ T!Converted(u, a) # T!Absent <=> T!Fits(u, a)
                             /\ T!Converted(u, a) # T!Absent => T!Converted(u, a) = T!Is(a) /\ T!Converted(t, a) = T!Is(a)
  BY DEF T!Converted, T!Fits, T!Is, T!Absent, ILeq, IsType

(* ---- C18 ---- *)
THEOREM OrderAnti == \A a, s, b, z \in Int : /\ T!Order(a, s, b, z) \in {-1, 0, 1}
                                             /\ T!Order(a, s, b, z) = -T!Order(b, z, a, s)
  BY Z3 DEF T!Order, T!Less, ITimes, ILeq
THEOREM OrderSame == ASSUME NEW a \in Int, NEW b \in Int, NEW s \in Int, s >= 1
                     PROVE  /\ T!Order(a, s, b, s) = 0 <=> a = b
                            /\ T!Order(a, s, b, s) = -1 <=> a < b
  <1>1. a * s \in Int /\ b * s \in Int BY Z3
  <1>2. a <= b <=> a * s <= b * s BY Monotone, Cancels
  <1>3. b <= a <=> b * s <= a * s BY Monotone, Cancels
  <1> QED BY <1>1, <1>2, <1>3 DEF T!Order, T!Less, ITimes, ILeq
THEOREM OrderTransitive ==
  ASSUME NEW a \in Int, NEW s \in Int, NEW b \in Int, NEW z \in Int, NEW c \in Int, NEW w \in Int,
         s >= 1, z >= 1, w >= 1, T!Order(a, s, b, z) <= 0, T!Order(b, z, c, w) <= 0
  PROVE  T!Order(a, s, c, w) <= 0
  <1>0. a * z \in Int /\ b * s \in Int /\ b * w \in Int /\ c * z \in Int /\ a * w \in Int /\ c * s \in Int BY Z3
  <1>1. a * z <= b * s BY <1>0 DEF T!Order, T!Less, ITimes, ILeq
  <1>2. b * w <= c * z BY <1>0 DEF T!Order, T!Less, ITimes, ILeq
  <1>3. (a * z) * w <= (b * s) * w BY <1>0, <1>1, Monotone
  <1>4. (b * w) * s <= (c * z) * s BY <1>0, <1>2, Monotone
  <1>5. (b * s) * w = (b * w) * s /\ (a * z) * w = (a * w) * z /\ (c * z) * s = (c * s) * z BY Z3
  <1>6. (a * w) * z <= (c * s) * z BY <1>3, <1>4, <1>5, <1>0
  <1>7. a * w <= c * s BY <1>0, <1>6, Cancels
  <1> QED BY <1>0, <1>7 DEF T!Order, T!Less, ITimes, ILeq
(* Extending either side does not change the order.                                *)
THEOREM OrderExtended ==
  ASSUME NEW a \in Int, NEW s \in Int, NEW b \in Int, NEW z \in Int, NEW k \in Int, s >= 1, z >= 1, k >= 1
  PROVE  T!Order(a * k, s * k, b, z) = T!Order(a, s, b, z)
  <1>0. a * z \in Int /\ b * s \in Int BY Z3
  <1>1. (a * k) * z = (a * z) * k /\ b * (s * k) = (b * s) * k BY Z3
  <1>2. a * z <= b * s <=> (a * z) * k <= (b * s) * k BY <1>0, Monotone, Cancels
  <1>3. b * s <= a * z <=> (b * s) * k <= (a * z) * k BY <1>0, Monotone, Cancels
  <1> QED BY <1>1, <1>2, <1>3 DEF T!Order, T!Less, ITimes, ILeq

(* ---- C19 ---- *)
THEOREM FloorQuotient ==
  ASSUME NEW a \in Int, NEW b \in Int, NEW k \in Int, b * k # 0, NEW q \in Int, NEW r \in Int, r = a - q * (b * k)
  PROVE  T!IsQuotFloor(q, r, a, b, k) <=> IF b * k > 0 THEN q * (b * k) <= a /\ a < (q + 1) * (b * k)
                                          ELSE q * (b * k) >= a /\ a > (q + 1) * (b * k)
  <1> DEFINE m == b * k
  <1>1. m \in Int BY Z3
  <1>2. q * m \in Int /\ (q + 1) * m = q * m + m BY <1>1, Z3
  <1> HIDE DEF m
  <1>3. r = a - q * m /\ m # 0 BY DEF m
  <1>4. T!IsQuotFloor(q, r, a, b, k) <=> T!SameSide(r, m)
    BY <1>1, <1>2, <1>3 DEF T!IsQuotFloor, IPlus, ITimes, m
  <1>5. T!SameSide(r, m) <=> IF m > 0 THEN q * m <= a /\ a < (q + 1) * m ELSE q * m >= a /\ a > (q + 1) * m
    BY <1>1, <1>2, <1>3 DEF T!SameSide, T!Less, ILeq
  <1> QED BY <1>4, <1>5 DEF m
THEOREM CeilQuotient ==
  ASSUME NEW a \in Int, NEW b \in Int, NEW k \in Int, b * k # 0, NEW q \in Int, NEW r \in Int, r = q * (b * k) - a
  PROVE  T!IsQuotCeil(q, r, a, b, k) <=> IF b * k > 0 THEN q * (b * k) >= a /\ a > (q - 1) * (b * k)
                                         ELSE q * (b * k) <= a /\ a < (q - 1) * (b * k)
  <1> DEFINE m == b * k
  <1>1. m \in Int BY Z3
  <1>2. q * m \in Int /\ (q - 1) * m = q * m - m BY <1>1, Z3
  <1> HIDE DEF m
  <1>3. r = q * m - a /\ m # 0 BY DEF m
  <1>4. T!IsQuotCeil(q, r, a, b, k) <=> T!SameSide(r, m)
    BY <1>1, <1>2, <1>3 DEF T!IsQuotCeil, IMinus, ITimes, m
  <1>5. T!SameSide(r, m) <=> IF m > 0 THEN q * m >= a /\ a > (q - 1) * m ELSE q * m <= a /\ a < (q - 1) * m
    BY <1>1, <1>2, <1>3 DEF T!SameSide, T!Less, ILeq
  <1> QED BY <1>4, <1>5 DEF m
=============================================================================
