----------------------------- MODULE MCMomentOps -----------------------------
EXTENDS MomentOps, LeapTables
(* A small world of two years (1971-1972). Leap seconds at the end of 31 January *)
(* and 28 February 1971, 29 February, 31 March and 31 December 1972; the last     *)
(* second of 31 December 1971 is removed.                                          *)
TabDef == TableOf(<< <<395, 1>>, <<423, 1>>, <<729, -1>>, <<789, 1>>, <<820, 1>>, <<1095, 1>> >>)
At(y, m, d, s) == [y |-> y, m |-> m, d |-> d, sod |-> s, ns |-> 5, p |-> 8]
StartsDef == {At(1972, 2, 29, SPD), At(1971, 1, 31, SPD), At(1971, 1, 1, 0)}
YearArgsDef == {-2, -1, 0, 1}
MonthArgsDef == {-11, -1, 1, 12, 25}
DayArgsDef == {-365, -30, -1, 0, 1, 29, 366}
HourArgsDef == {-3, 1, 2}
MinuteArgsDef == {<<-1, 1>>, <<0, 1>>, <<0, MPD - 1>>, <<-1, MPD - 1>>}
SecondArgsDef == {<<-1, SPD - 1>>, <<0, 1>>, <<0, SPD - 1>>, <<30, 1>>, <<-31, 3>>}
View == <<cur, carry, step[1] \in {"seconds", "apply", "drop", "build"}, step[4]>>
==============================================================================
