------------------------------ MODULE Timeline ------------------------------
(* Instants and durations: integers of ticks, of a tick type with a range and a *)
(* scale with a whole number of ticks per second. The integers are abstract so  *)
(* that one specification serves both exhaustive checking (plain integers, tiny *)
(* tick types) and trace checking (BigInt, the real types).                      *)
LOCAL INSTANCE Integers

CONSTANTS Plus(_, _), Minus(_, _), Times(_, _), Leq(_, _),
          Nil,                \* 0
          Unit,               \* 1
          Lo(_), Hi(_)        \* least and greatest value of a tick type

Less(a, b) == ~Leq(b, a)
Fits(t, x) == Leq(Lo(t), x) /\ Leq(x, Hi(t))

Absent == <<"none">>
Panic == <<"panic">>
Is(x) == <<"some", x>>

(* C15. Checked addition of a duration to an instant, and the plain operators    *)
(* that panic instead.                                                           *)
CheckedAdd(t, a, b) == LET x == Plus(a, b) IN IF Fits(t, x) THEN Is(x) ELSE Absent
InstantAdd(t, a, b) == LET x == Plus(a, b) IN IF Fits(t, x) THEN Is(x) ELSE Panic
InstantSub(t, a, b) == LET x == Minus(a, b) IN IF Fits(t, x) THEN Is(x) ELSE Panic
(* Plain duration arithmetic promises only results that fit: r is an acceptable  *)
(* outcome for exact result x.                                                    *)
ExactIfFits(t, x, r) == Fits(t, x) => r = Is(x)

(* C16. k ticks of the finer scale make one of the coarser.                       *)
IsFloor(q, a, k) == Leq(Times(q, k), a) /\ Less(a, Times(Plus(q, Unit), k))
IsSplit(q, r, a, k) == IsFloor(q, a, k) /\ Plus(Times(q, k), r) = a
Extended(t, a, k) == LET x == Times(a, k) IN IF Fits(t, x) THEN Is(x) ELSE Absent

(* C17. Another tick type.                                                        *)
Converted(t, a) == IF Fits(t, a) THEN Is(a) ELSE Absent

(* C18. a ticks at s per second against b ticks at z per second.                  *)
Order(a, s, b, z) ==
  LET x == Times(a, z)
      y == Times(b, s)
  IN IF Less(x, y) THEN -1 ELSE IF Less(y, x) THEN 1 ELSE 0

(* C19. Dividing by b ticks of a scale k times coarser.                            *)
SameSide(r, m) == \/ r = Nil
                  \/ Less(Nil, r) /\ Less(r, m)
                  \/ Less(r, Nil) /\ Less(m, r)
IsQuotFloor(q, r, a, b, k) ==
  LET m == Times(b, k) IN Plus(Times(q, m), r) = a /\ SameSide(r, m)
IsQuotCeil(q, r, a, b, k) ==
  LET m == Times(b, k) IN Minus(Times(q, m), r) = a /\ SameSide(r, m)
=============================================================================
