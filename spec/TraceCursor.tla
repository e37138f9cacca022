----------------------------- MODULE TraceCursor -----------------------------
(* Recorded runs of the real slice cursor, compared with Cursor.tla.               *)
(* "new": a sequence of len elements (element i is 7 * i + 3) and the way the cursor *)
(* was made: "start", "end" or at element n. Other lines are operations: "next",      *)
(* "prev", "adv", "rev", "set" with argument n and returned value r (the element, 0    *)
(* for none; for counted moves the number of steps taken), and what is seen             *)
(* afterwards: s = <<position, current, next, previous, at start, at end>>.              *)
EXTENDS Cursor, Verdicts, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, len, pos
vars == <<l, len, pos, shown>>

Shown(s) == <<s[1], s[2], s[3], s[4], s[5] = 1, s[6] = 1>>

Place(e) == CASE e.o = "start" -> 0 [] e.o = "end" -> e.len + 1 [] e.o = "with" -> e.n

Seen6(e, n, p) == IF e.r = -1 THEN {"panic"} ELSE Report(Shown(e.s) = Seen(n, p), "seen")

Note(S) == NoteAt(l, S)

Step(e) ==
  IF e.e = "new"
  THEN len' = e.len /\ pos' = Place(e) /\ Note(Seen6(e, e.len, Place(e)))
  ELSE LET a == After(len, pos, e.o, e.n)
       IN /\ pos' = a[1] /\ len' = len
          /\ Note(Seen6(e, len, a[1]) \cup Report(e.r = a[2], "returned"))

Init == l = 1 /\ len = 0 /\ pos = 0 /\ shown = <<>>
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ Step(Log[l])
        /\ EndAt(l, Log)
Spec == Init /\ [][Next]_vars
==============================================================================
