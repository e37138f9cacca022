------------------------------ MODULE MCBigInt ------------------------------
(* BigInt against TLC's own integers, on numbers around every digit boundary,  *)
(* and its laws on numbers far beyond them.                                     *)
EXTENDS Integers, Sequences, TLC, BigInt

VARIABLES a, b
Small == {-1000000001, -99999999, -20001, -10000, -9999, -1, 0, 1, 7, 9999, 10000, 10001, 20000, 86399, 100000000}
Factors == {-20001, -10000, -9999, -86, -1, 0, 1, 2, 9999, 10000, 46340}
Divisors == {1, 2, 9999, 10000, 10001, 86400, 200000}
Large == {Pow2(k) : k \in {0, 13, 31, 63, 64, 127}} \cup {Sub(Pow2(k), One) : k \in {13, 32, 63, 64, 128}}
Signed == Large \cup {Negate(x) : x \in Large} \cup {Zero}

Init == a \in Signed /\ b \in Signed
Spec == Init /\ [][UNCHANGED <<a, b>>]_<<a, b>>

ASSUME \A x \in Small : IsBig(Of(x)) /\ (IsSmall(Of(x)) => ToInt(Of(x)) = x)
ASSUME \A x \in Small, y \in Small :
         /\ Add(Of(x), Of(y)) = Of(x + y)
         /\ Sub(Of(x), Of(y)) = Of(x - y)
         /\ Cmp(Of(x), Of(y)) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
ASSUME \A x \in Factors, y \in Factors : Mul(Of(x), Of(y)) = Of(x * y)
ASSUME \A x \in Small, k \in Divisors : DivModSmall(Of(x), k) = <<Of(x \div k), x % k>>
ASSUME Pow2(30) = Of(1073741824)
ASSUME Pow2(127) = <<0, 5728, 8410, 7158, 7303, 3168, 2317, 469, 8346, 1411, 170>>

WellFormedResults == \A x \in {Add(a, b), Sub(a, b), Mul(a, b)} : IsBig(x)
AddCommutes == Add(a, b) = Add(b, a)
SubUndoes == Sub(Add(a, b), b) = a
MulDistributes == \A c \in {Of(86400), Pow2(64)} : Mul(Add(a, b), c) = Add(Mul(a, c), Mul(b, c))
MulCommutes == Mul(a, b) = Mul(b, a)
OrderBySign == Lt(a, b) <=> Neg(Sub(a, b))
DivBack == \A k \in Divisors : LET qr == DivModSmall(a, k)
                               IN Add(Mul(qr[1], Of(k)), Of(qr[2])) = a /\ qr[2] \in 0..(k - 1)
=============================================================================
