----------------------------- MODULE TraceCivil ------------------------------
(* Recorded calls of the calendar internals: the normalized date and the Julian     *)
(* day and Unix time of a civil date, compared with Gregorian.tla.                    *)
EXTENDS Integers, Sequences, Gregorian, BigInt, Verdicts, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

(* The calendar of normalized dates: 256 cycles of 400 years, counted from            *)
(* 2000-03-01, the first being -128.                                                   *)
Epoch2000 == DayNumber(2000, 3, 1)
FirstDay == Epoch2000 - 128 * CycleDays
LastDay == Epoch2000 + 128 * CycleDays - 1
FirstFullYear == -49199     \* the first and the last year fully supported
LastFullYear == 53199

VARIABLES l, last
vars == <<l, last, shown>>


(* Day numbers n .. n + len - 1: converted to dates y-m-d, y-m-(d+1)... of one month,   *)
(* with leap flag ly. td: the date converts back to a day off by td. fd: building from   *)
(* y, m, d gives an equal date (1), another (0), is out of bounds (2), invalid (3),       *)
(* panics (4). o: compared to the day before: -1, 0, 1 and 9 if there is none (partial    *)
(* and total agreeing; 8 if not).                                                          *)
RunAspects(e) ==
  LET date == DateOf(e.n)
      inside == e.y >= FirstFullYear /\ e.y <= LastFullYear
  IN Report(/\ e.n >= FirstDay /\ e.n + e.len - 1 <= LastDay
            /\ date = <<e.y, e.m, e.d>>
            /\ e.d + e.len - 1 <= DaysInMonth(e.y, e.m), "date")
     \cup Report(e.ly = (IF IsLeap(date[1]) THEN 1 ELSE 0), "leap")
     \cup Report(e.td = 0, "day")
     \cup Report(inside => e.fd = 1, "from_date")
     \cup Report(~inside => e.fd \in {1, 2}, "from_date")
     \cup Report(e.n > FirstDay => e.o = 1, "order")
     \cup Report(e.n = last, "contiguous")

(* Whether day numbers are accepted: r = 1 accepted, 0 rejected, 2 panicked.              *)
DayBounds(e) ==
  LET big == ~IsSmall(e.n)
      in == ~big /\ ToInt(e.n) >= FirstDay /\ ToInt(e.n) <= LastDay
  IN Report(e.r = (IF in THEN 1 ELSE 0), "bounds")

(* Building from year, month, day: r = 0 accepted and then day number v; 2 out of bounds,  *)
(* 3 invalid, 4 panicked. Years at the very ends are supported in part: not judged.          *)
DateAspects(e) ==
  LET exists == IsDate(e.y, e.m, e.d)
      inside == e.y >= FirstFullYear /\ e.y <= LastFullYear
      beyond == e.y < FirstFullYear - 1 \/ e.y > LastFullYear + 1
  IN IF e.r = 4 THEN {"from_date"}
     ELSE IF ~exists THEN Report(e.r \in (IF inside THEN {3} ELSE {2, 3}), "exists")
     ELSE IF inside THEN Report(e.r = 0 /\ e.v = DayNumber(e.y, e.m, e.d), "from_date")
     ELSE IF beyond THEN Report(e.r = 2, "bounds")
     ELSE Report(e.r \in {0, 2} /\ (e.r = 0 => e.v = DayNumber(e.y, e.m, e.d)), "from_date")

CmpAspects(e) ==
  LET o == IF e.a < e.b THEN -1 ELSE IF e.a > e.b THEN 1 ELSE 0
  IN Report(e.c = o /\ e.pc = o /\ e.eq = (IF o = 0 THEN 1 ELSE 0), "order")

(* Julian days of the days of a month, as runs <<d, julian day, count>>.                     *)
JulianAspects(e) ==
  Report(e.runs = << <<1, JulianDay(e.y, e.m, 1), DaysInMonth(e.y, e.m)>> >>, "julian")

(* Unix time, as days and seconds of the day.                                                  *)
UnixAspects(e) ==
  Report(e.v = <<DayNumber(e.y, e.m, e.d), 3600 * e.h + 60 * e.mi + e.s>>, "unix")

Aspects(e) ==
  CASE e.e = "gnd" -> RunAspects(e)
    [] e.e = "gndfrom" -> {}
    [] e.e = "gndend" -> Report(last = e.n, "contiguous")
    [] e.e = "gndday" -> DayBounds(e)
    [] e.e = "gnddate" -> DateAspects(e)
    [] e.e = "gndcmp" -> CmpAspects(e)
    [] e.e = "julian" -> JulianAspects(e)
    [] e.e = "unix" -> UnixAspects(e)

Note(S) == NoteAt(l, S)

Init == l = 1 /\ last = 0 /\ shown = <<>>
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET e == Log[l]
           IN /\ Note(Aspects(e))
              /\ last' = CASE e.e = "gnd" -> e.n + e.len [] e.e = "gndfrom" -> e.n [] OTHER -> last
        /\ EndAt(l, Log)
Spec == Init /\ [][Next]_vars
===============================================================================
