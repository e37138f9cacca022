------------------------------- MODULE Cursor -------------------------------
(* A cursor over a sequence of len elements. Position 0 is before the first      *)
(* element, 1..len on an element, len + 1 past the last.                          *)
EXTENDS Integers, Sequences, TLC

(* Element i of the sequence the harness uses; 0 stands for "no element".          *)
Element(len, i) == IF i >= 1 /\ i <= len THEN 7 * i + 3 ELSE 0

Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b

NextPos(len, pos) == Least(pos + 1, len + 1)
PrevPos(len, pos) == Most(pos - 1, 0)
(* How many of n steps towards an element exist.                                    *)
StepsForth(len, pos, n) == Least(n, Most(len - pos, 0))
StepsBack(len, pos, n) == Least(n, Most(pos - 1, 0))

(* Everything that can be seen of a cursor: position, the element at, after and     *)
(* before it, at start, at end.                                                      *)
Seen(len, pos) == <<pos, Element(len, pos), Element(len, pos + 1), Element(len, pos - 1),
                    pos = 0, pos = len + 1>>

(* After an operation: the new position and what it returned. For the counted        *)
(* moves that is the number of steps that could be taken.                             *)
After(len, pos, op, n) ==
  CASE op = "next" -> <<NextPos(len, pos), Element(len, NextPos(len, pos))>>
    [] op = "prev" -> <<PrevPos(len, pos), Element(len, PrevPos(len, pos))>>
    [] op = "adv"  -> <<pos + StepsForth(len, pos, n), StepsForth(len, pos, n)>>
    [] op = "rev"  -> <<pos - StepsBack(len, pos, n), StepsBack(len, pos, n)>>
    [] op = "set"  -> <<n, 0>>
=============================================================================
