----------------------------- MODULE LeapTables -----------------------------
(* Making leap-second tables, and what their lookups mean.                       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE LeapSeconds

RECURSIVE Totalled(_, _, _)
Totalled(tab, i, sum) ==
  IF i > Len(tab) THEN <<>>
  ELSE << <<tab[i][1], tab[i][2], sum + tab[i][2]>> >> \o Totalled(tab, i + 1, sum + tab[i][2])
(* The table made of a sequence of <<day, delta>>.                               *)
TableOf(entries) == Totalled(entries, 1, 0)

(* Lookups by definition.                                                         *)
RECURSIVE SumBefore(_, _, _)
SumBefore(tab, D, i) ==
  IF i > Len(tab) THEN 0
  ELSE (IF tab[i][1] < D THEN tab[i][2] ELSE 0) + SumBefore(tab, D, i + 1)
LookupsAgree(tab, D) ==
  /\ Accumulated(tab, D) = SumBefore(tab, D, 1)
  /\ Delta(tab, D) = SumBefore(tab, D + 1, 1) - SumBefore(tab, D, 1)
=============================================================================
