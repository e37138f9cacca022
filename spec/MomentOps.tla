----------------------------- MODULE MomentOps -----------------------------
(* A program using date-times: it builds one, does arithmetic on it, and        *)
(* resolves the carry of each result one way or another. Checked exhaustively   *)
(* in a small world, and used to generate behaviours that the harness replays   *)
(* into the real library (with the real constants and leap-second table).        *)
EXTENDS DateTimes, TLC

CONSTANTS Tab,              \* leap-second table
          Starts,           \* set of moments a program may build
          YearArgs, MonthArgs, DayArgs, HourArgs,
          MinuteArgs, SecondArgs    \* sets of <<days, rest>>

VARIABLES cur,     \* current value (clamped, if a carry is pending)
          carry,   \* pending <<days, seconds>>
          step     \* what was just done: <<op, argument, argument, succeeded>>

vars == <<cur, carry, step>>

NoCarry == <<0, 0>>
Resolved == carry = NoCarry

Took(op, a, b, r) ==
  /\ cur' = IF r.ok THEN r.v ELSE cur
  /\ carry' = IF r.ok THEN <<r.cd, r.cs>> ELSE NoCarry
  /\ step' = <<op, a, b, r.ok>>

Build(v) == /\ Resolved
            /\ cur' = v /\ carry' = NoCarry /\ step' = <<"build", 0, 0, TRUE>>

ByYears(n)      == Resolved /\ Took("years", n, 0, AddYears(Tab, cur, n))
ByMonths(n)     == Resolved /\ Took("months", n, 0, AddMonths(Tab, cur, n))
ByDays(n)       == Resolved /\ Took("days", n, 0, AddDays(Tab, cur, n))
ByHours(n)      == Resolved /\ Took("hours", n, 0, AddHours(Tab, cur, n \div HPD, n % HPD))
ByMinutes(q, r) == Resolved /\ Took("minutes", q, r, AddMinutes(Tab, cur, q, r))
BySeconds(q, r) == Resolved /\ Took("seconds", q, r, AddSeconds(Tab, cur, q, r))

Drop == /\ ~Resolved
        /\ Took("drop", 0, 0, Some(cur, 0, 0))
Apply == /\ ~Resolved
         /\ Took("apply", 0, 0, ApplyCarry(Tab, cur, carry[1], carry[2]))

Init == cur \in Starts /\ carry = NoCarry /\ step = <<"build", 0, 0, TRUE>>

Next == \/ \E n \in YearArgs : ByYears(n)
        \/ \E n \in MonthArgs : ByMonths(n)
        \/ \E n \in DayArgs : ByDays(n)
        \/ \E n \in HourArgs : ByHours(n)
        \/ \E n \in MinuteArgs : ByMinutes(n[1], n[2])
        \/ \E n \in SecondArgs : BySeconds(n[1], n[2])
        \/ Drop
        \/ Apply

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* C10: whatever the program does, what it holds exists.                          *)
AlwaysExists == Exists(Tab, cur)
CarrySmall == /\ carry[1] \in 0..3 /\ carry[2] \in 0..2
              /\ carry # NoCarry => step[4]
(* C11: nothing but building changes precision or nanoseconds.                    *)
RestKept == [][cur'.ns = cur.ns /\ cur'.p = cur.p]_vars
(* C10: applying an exact number of days and seconds never comes up short.        *)
ApplyMovesOn == [][step'[1] = "apply" /\ step'[4] =>
                   PairLt(Elapsed(Tab, cur), Elapsed(Tab, cur'))]_vars
(* Failing leaves the value alone.                                                *)
FailKeeps == [][~step'[4] => cur' = cur]_vars
NoExcess == step[1] \in {"seconds", "apply", "drop", "build"} => Resolved
=============================================================================
