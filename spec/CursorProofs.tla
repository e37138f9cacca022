--------------------------- MODULE CursorProofs ---------------------------
(* C20: what Cursor.tla says of a cursor, proved with TLAPS for sequences of any    *)
(* length and any counts.                                                           *)
EXTENDS Cursor, TLAPS

THEOREM Inside ==
  ASSUME NEW len \in Nat, NEW pos \in 0..(len + 1), NEW n \in Nat
  PROVE  /\ After(len, pos, "next", n)[1] \in 0..(len + 1)
         /\ After(len, pos, "prev", n)[1] \in 0..(len + 1)
         /\ After(len, pos, "adv", n)[1] \in 0..(len + 1)
         /\ After(len, pos, "rev", n)[1] \in 0..(len + 1)
  BY DEF After, NextPos, PrevPos, StepsForth, StepsBack, Least, Most

(* Moving by n is n single steps when that many elements remain; otherwise it stops *)
(* on the last (first) one, or stays if it is already past it.                      *)
THEOREM NoneIsNowhere ==
  ASSUME NEW len \in Nat, NEW pos \in 0..(len + 1)
  PROVE  After(len, pos, "adv", 0) = <<pos, 0>> /\ After(len, pos, "rev", 0) = <<pos, 0>>
  BY DEF After, StepsForth, StepsBack, Least, Most

THEOREM OneMoreForth ==
  ASSUME NEW len \in Nat, NEW pos \in 0..(len + 1), NEW n \in Nat
  PROVE  LET a == After(len, pos, "adv", n)
             b == After(len, pos, "adv", n + 1)
         IN IF a[2] = n /\ NextPos(len, a[1]) <= len
            THEN b[1] = NextPos(len, a[1]) /\ b[2] = n + 1
            ELSE b = a
  BY DEF After, NextPos, StepsForth, Least, Most

THEOREM OneMoreBack ==
  ASSUME NEW len \in Nat, NEW pos \in 0..(len + 1), NEW n \in Nat
  PROVE  LET a == After(len, pos, "rev", n)
             b == After(len, pos, "rev", n + 1)
         IN IF a[2] = n /\ PrevPos(len, a[1]) >= 1
            THEN b[1] = PrevPos(len, a[1]) /\ b[2] = n + 1
            ELSE b = a
  BY DEF After, PrevPos, StepsBack, Least, Most

THEOREM TooMany ==
  ASSUME NEW len \in Nat, NEW pos \in 0..(len + 1), NEW n \in Nat
  PROVE  /\ After(len, pos, "adv", n)[2] < n => After(len, pos, "adv", n)[1] = Most(len, pos)
         /\ After(len, pos, "rev", n)[2] < n => After(len, pos, "rev", n)[1] = Least(1, pos)
  BY DEF After, StepsForth, StepsBack, Least, Most

THEOREM BackAndForth ==
  ASSUME NEW len \in Nat, NEW pos \in 0..(len + 1)
  PROVE  /\ pos <= len => PrevPos(len, NextPos(len, pos)) = pos
         /\ pos >= 1 => NextPos(len, PrevPos(len, pos)) = pos
  BY DEF NextPos, PrevPos, Least, Most

THEOREM PeeksAgree ==
  ASSUME NEW len \in Nat, NEW pos \in 0..(len + 1)
  PROVE  /\ Seen(len, pos)[3] = (IF pos <= len THEN Element(len, NextPos(len, pos)) ELSE 0)
         /\ Seen(len, pos)[4] = (IF pos >= 1 THEN Element(len, PrevPos(len, pos)) ELSE 0)
  <1>1. pos <= len => NextPos(len, pos) = pos + 1 BY DEF NextPos, Least
  <1>2. pos >= 1 => PrevPos(len, pos) = pos - 1 BY DEF PrevPos, Most
  <1>3. pos = len + 1 => Element(len, pos + 1) = 0 BY DEF Element
  <1>4. pos = 0 => Element(len, pos - 1) = 0 BY DEF Element
  <1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Seen
=============================================================================
