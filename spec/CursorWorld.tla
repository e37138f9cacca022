---------------------------- MODULE CursorWorld ----------------------------
(* Every cursor over sequences of up to MaxLen elements, with every operation.    *)
(* With Printing = TRUE each transition is printed for replay into the real cursor.  *)
EXTENDS Cursor, IOUtils

CONSTANTS MaxLen, Printing

VARIABLES len, pos, last
cvars == <<len, pos, last>>

Huge == 1073741824     \* stands for the greatest step count there is

Ops == {<<"next", 0>>, <<"prev", 0>>}
         \cup {<<"adv", n>> : n \in 0..(MaxLen + 2) \cup {Huge}}
         \cup {<<"rev", n>> : n \in 0..(MaxLen + 2) \cup {Huge}}
Sets == {<<"set", n>> : n \in 0..(len + 1)}

Show(op, n, r) == Printing => PrintT("BEHAVIOUR " \o ToString(<<len, pos,
   CASE op = "next" -> 1 [] op = "prev" -> 2 [] op = "adv" -> 3 [] op = "rev" -> 4 [] OTHER -> 5,
   n, r[2], r[1], Seen(len, r[1])[2], Seen(len, r[1])[3], Seen(len, r[1])[4]>>))

Do(op, n) == LET r == After(len, pos, op, n)
             IN pos' = r[1] /\ last' = <<op, n, r[2]>> /\ UNCHANGED len /\ Show(op, n, r)

Init == len \in 0..MaxLen /\ pos \in 0..(len + 1) /\ last = <<"set", 0, 0>>
Next == \E o \in Ops \cup Sets : Do(o[1], o[2])
Spec == Init /\ [][Next]_cvars
View == <<len, pos>>

Inside == pos \in 0..(len + 1)
RECURSIVE Walk(_, _)
Walk(p, n) == IF n = 0 THEN p ELSE Walk(NextPos(len, p), n - 1)
RECURSIVE WalkBack(_, _)
WalkBack(p, n) == IF n = 0 THEN p ELSE WalkBack(PrevPos(len, p), n - 1)
(* Moving by n is n single steps when that many elements remain; otherwise it stops *)
(* on the last (first) one, or stays if it is already past it.                       *)
ManyIsSingles == \A n \in 0..(MaxLen + 2) :
  LET a == After(len, pos, "adv", n)
      b == After(len, pos, "rev", n)
  IN /\ a[2] = n => a[1] = Walk(pos, n) /\ (n > 0 => Element(len, a[1]) # 0)
     /\ a[2] < n => a[1] = Most(len, pos)
     /\ b[2] = n => b[1] = WalkBack(pos, n) /\ (n > 0 => Element(len, b[1]) # 0)
     /\ b[2] < n => b[1] = Least(1, pos)
SeesAll == pos = 0 => [i \in 1..len |-> Element(len, Walk(pos, i))] = [i \in 1..len |-> 7 * i + 3]
BackAndForth == /\ pos <= len => PrevPos(len, NextPos(len, pos)) = pos
                /\ pos >= 1 => NextPos(len, PrevPos(len, pos)) = pos
PeeksAgree == /\ Seen(len, pos)[3] = (IF pos <= len THEN Element(len, NextPos(len, pos)) ELSE 0)
              /\ Seen(len, pos)[4] = (IF pos >= 1 THEN Element(len, PrevPos(len, pos)) ELSE 0)
=============================================================================
