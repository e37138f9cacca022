------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size. TLC's own integers are 32-bit, while ticks are *)
(* up to 128 bits wide. A number is a tuple <<s, l0, l1, ...>>: s is 1 for a   *)
(* negative number and 0 otherwise, the l are base-10000 digits, least         *)
(* significant first, without leading zeros. Zero is <<0>>. This is also the   *)
(* form in which the harness writes numbers into traces.                       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Base == 10000

Zero == <<0>>
One == <<0, 1>>

Neg(a) == Len(a) > 1 /\ a[1] = 1
IsZero(a) == Len(a) = 1
Mag(a) == Tail(a)

IsBig(a) == /\ Len(a) >= 1
            /\ a[1] \in {0, 1}
            /\ \A i \in 2..Len(a) : a[i] \in 0..(Base - 1)
            /\ Len(a) > 1 => a[Len(a)] # 0
            /\ Len(a) = 1 => a[1] = 0

--------------------------------------------------------------------------
(* Magnitudes: sequences of digits.                                         *)
RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Digit(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE CmpFrom(_, _, _)
CmpFrom(m, n, i) ==
  IF i = 0 THEN 0
  ELSE IF m[i] < n[i] THEN -1
  ELSE IF m[i] > n[i] THEN 1
  ELSE CmpFrom(m, n, i - 1)

CmpMag(m, n) == IF Len(m) < Len(n) THEN -1
                ELSE IF Len(m) > Len(n) THEN 1
                ELSE CmpFrom(m, n, Len(m))

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(m, n, i, c, acc) ==
  IF i > Len(m) /\ i > Len(n) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == Digit(m, i) + Digit(n, i) + c
       IN AddFrom(m, n, i + 1, t \div Base, Append(acc, t % Base))
AddMag(m, n) == AddFrom(m, n, 1, 0, <<>>)

(* m >= n *)
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(m, n, i, b, acc) ==
  IF i > Len(m) THEN Trim(acc)
  ELSE LET t == m[i] - Digit(n, i) - b
       IN IF t < 0 THEN SubFrom(m, n, i + 1, 1, Append(acc, t + Base))
                   ELSE SubFrom(m, n, i + 1, 0, Append(acc, t))
SubMag(m, n) == SubFrom(m, n, 1, 0, <<>>)

RECURSIVE MulDigit(_, _, _, _, _)
MulDigit(m, k, i, c, acc) ==
  IF i > Len(m) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == m[i] * k + c
       IN MulDigit(m, k, i + 1, t \div Base, Append(acc, t % Base))

RECURSIVE MulFrom(_, _, _)
MulFrom(m, n, j) ==
  IF j > Len(n) THEN <<>>
  ELSE LET low == IF n[j] = 0 THEN <<>> ELSE MulDigit(m, n[j], 1, 0, <<>>)
           rest == MulFrom(m, n, j + 1)
           shifted == IF rest = <<>> THEN <<>> ELSE <<0>> \o rest
       IN AddMag(low, shifted)
MulMag(m, n) == IF m = <<>> \/ n = <<>> THEN <<>> ELSE Trim(MulFrom(m, n, 1))

(* Schoolbook division by 1 <= k <= 200000, most significant digit first.   *)
RECURSIVE DivSmallFrom(_, _, _, _, _)
DivSmallFrom(m, k, i, r, acc) ==
  IF i = 0 THEN <<Trim(acc), r>>
  ELSE LET t == r * Base + m[i]
       IN DivSmallFrom(m, k, i - 1, t % k, <<t \div k>> \o acc)

(* Quotient digits of DivSmallFrom are below Base because r < k.             *)
--------------------------------------------------------------------------
Make(s, m) == IF m = <<>> THEN Zero ELSE <<s>> \o m

Negate(a) == IF IsZero(a) THEN a ELSE <<1 - a[1]>> \o Mag(a)

Add(a, b) ==
  IF a[1] = b[1] THEN Make(a[1], AddMag(Mag(a), Mag(b)))
  ELSE LET c == CmpMag(Mag(a), Mag(b))
       IN IF c = 0 THEN Zero
          ELSE IF c > 0 THEN Make(a[1], SubMag(Mag(a), Mag(b)))
          ELSE Make(b[1], SubMag(Mag(b), Mag(a)))

Sub(a, b) == Add(a, Negate(b))

Mul(a, b) == Make(IF a[1] = b[1] THEN 0 ELSE 1, MulMag(Mag(a), Mag(b)))

Cmp(a, b) ==
  IF Neg(a) # Neg(b) THEN (IF Neg(a) THEN -1 ELSE 1)
  ELSE IF Neg(a) THEN CmpMag(Mag(b), Mag(a)) ELSE CmpMag(Mag(a), Mag(b))

Le(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0

(* <<floor(a / k), a mod k>> with 0 <= remainder < k; the remainder is a     *)
(* plain integer.                                                            *)
DivModSmall(a, k) ==
  LET qr == DivSmallFrom(Mag(a), k, Len(Mag(a)), 0, <<>>)
  IN IF ~Neg(a) THEN <<Make(0, qr[1]), qr[2]>>
     ELSE IF qr[2] = 0 THEN <<Make(1, qr[1]), 0>>
     ELSE <<Sub(Make(1, qr[1]), One), k - qr[2]>>

(* Conversion from and to plain integers (TLC: 32-bit).                      *)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o DigitsOf(n \div Base)
Of(n) == IF n < 0 THEN Make(1, DigitsOf(-n)) ELSE Make(0, DigitsOf(n))

(* a has at most two digits more than fit safely: |a| < 10^8                 *)
IsSmall(a) == Len(a) <= 3
ToInt(a) ==
  LET v == Digit(Mag(a), 1) + Base * Digit(Mag(a), 2)
  IN IF Neg(a) THEN -v ELSE v

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN One
           ELSE IF k >= 12 THEN Mul(Of(4096), Pow2(k - 12))
           ELSE Mul(Of(2), Pow2(k - 1))
=============================================================================
