------------------------------ MODULE Verdicts ------------------------------
(* How the trace specifications report what they find: a set of aspects in which *)
(* a line of the trace differs from the specification. Checking goes on with the  *)
(* next line; the first few lines of each set of aspects are printed.              *)
EXTENDS Integers, Sequences, TLC

VARIABLE shown     \* aspect sets found so far, each with how often

Report(holds, aspect) == IF holds THEN {} ELSE {aspect}

HowOften(S) == LET i == {j \in 1..Len(shown) : shown[j][1] = S}
            IN IF i = {} THEN 0 ELSE shown[CHOOSE j \in i : TRUE][2]
Noted(S) == IF HowOften(S) = 0 THEN Append(shown, <<S, 1>>)
            ELSE [j \in 1..Len(shown) |-> IF shown[j][1] = S THEN <<S, shown[j][2] + 1>> ELSE shown[j]]

(* Line number l of the trace differs in the aspects S.                             *)
NoteAt(l, S) == IF S = {} THEN shown' = shown
                ELSE /\ shown' = Noted(S)
                     /\ HowOften(S) < 3 => PrintT("REJECT " \o ToString(l) \o " " \o ToString(S))
(* All lines were checked.                                                          *)
EndAt(l, log) == l = Len(log) => PrintT("CONSUMED " \o ToString(l))
=============================================================================
