---------------------------- MODULE LeapSeconds ----------------------------
(* A leap-second table is a sequence of <<day, delta, total>>: delta seconds    *)
(* (+1 or -1) are inserted at the end of that UTC day, total is the running     *)
(* total including this entry. Days are strictly increasing.                     *)
EXTENDS Integers, Sequences, Halving

(* Narrowing the search below this often is enough for so many entries.          *)
MostEntries == 127

\* @type: (Seq(<<Int, Int, Int>>)) => Bool;
WellFormed(tab) ==
  /\ Len(tab) >= 1 /\ Len(tab) <= MostEntries
  /\ \A i \in DOMAIN tab : tab[i][1] >= 0 /\ tab[i][2] \in {-1, 1}
  /\ \A i \in DOMAIN tab : i = 1 \/ tab[i - 1][1] < tab[i][1]
  /\ \A i \in DOMAIN tab : tab[i][3] = tab[i][2] + (IF i = 1 THEN 0 ELSE tab[i - 1][3])

\* @type: (Seq(<<Int, Int, Int>>)) => Int;
Total(tab) == IF Len(tab) = 0 THEN 0 ELSE tab[Len(tab)][3]

(* Index of the last entry in lo..hi with a day before D; lo if there is none.   *)
(* Not recursive, for Apalache's sake.                                            *)
\* @type: (Seq(<<Int, Int, Int>>), Int, Int, Int) => Int;
Search(tab, D, lo, hi) ==
  LET a == Halved(tab, D, <<lo, hi>>)
      b == Halved(tab, D, a)
      c == Halved(tab, D, b)
      d == Halved(tab, D, c)
      f == Halved(tab, D, d)
      g == Halved(tab, D, f)
  IN Halved(tab, D, g)[1]

(* Leap seconds inserted before the start of day D.                              *)
\* @type: (Seq(<<Int, Int, Int>>), Int) => Int;
Accumulated(tab, D) ==
  IF Len(tab) = 0 THEN 0
  ELSE IF D <= tab[1][1] THEN 0
  ELSE IF D > tab[Len(tab)][1] THEN tab[Len(tab)][3]
  ELSE tab[Search(tab, D, 1, Len(tab))][3]

(* Leap seconds inserted at the end of day D.                                    *)
\* @type: (Seq(<<Int, Int, Int>>), Int) => Int;
Delta(tab, D) ==
  IF Len(tab) = 0 THEN 0
  ELSE IF D < tab[1][1] \/ D > tab[Len(tab)][1] THEN 0
  ELSE LET i == Search(tab, D + 1, 1, Len(tab)) IN IF tab[i][1] = D THEN tab[i][2] ELSE 0
=============================================================================
