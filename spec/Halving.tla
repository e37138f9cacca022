------------------------------ MODULE Halving ------------------------------
(* One step of looking for a day in a leap-second table (LeapSeconds.tla):        *)
(* narrows the entries r[1]..r[2] to those among which is the last before day D.   *)
EXTENDS Integers, Sequences

\* @type: (Seq(<<Int, Int, Int>>), Int, <<Int, Int>>) => <<Int, Int>>;
Halved(tab, D, r) ==
  IF r[1] >= r[2] THEN r
  ELSE LET mid == (r[1] + r[2] + 1) \div 2
       IN IF tab[mid][1] < D THEN <<mid, r[2]>> ELSE <<r[1], mid - 1>>
=============================================================================
