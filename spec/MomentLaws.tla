---------------------------- MODULE MomentLaws ----------------------------
(* What users rely on, said of one moment v under a table tab and of arbitrary   *)
(* counts: laws of the calendar's pages, the clock's face and the clock's ticks.  *)
(* MomentWorld checks them of every moment of a small world with TLC, and           *)
(* the modules called Proofs prove them of all moments and counts of the real one. *)
EXTENDS DateTimes

\* @type: ($table, $moment, Int) => $moved;
AddS(tab, w, n) == AddSeconds(tab, w, n \div SPD, n % SPD)
\* @type: ($table, $moment, Int) => $moved;
AddM(tab, w, n) == AddMinutes(tab, w, n \div MPD, n % MPD)
\* @type: ($table, $moment, Int) => $moved;
AddH(tab, w, n) == AddHours(tab, w, n \div HPD, n % HPD)
\* @type: $moment => $moved;
Plain(w) == Some(w, 0, 0)

(* C02: the fields show the moment, and determine it.                             *)
\* @type: ($table, $moment) => Bool;
FieldsShowAt(tab, v) ==
  /\ SecondOf(v) + SPM * (MinuteOf(v) + MPH * HourOf(v)) = v.sod
  /\ HourOf(v) >= 0 /\ HourOf(v) < HPD /\ MinuteOf(v) >= 0 /\ MinuteOf(v) < MPH
  /\ SecondOf(v) >= 0 /\ SecondOf(v) < MinuteLength(tab, DayOf(v), MinuteOfDay(v))
  /\ (SecondOf(v) >= SPM) => (MinuteOfDay(v) = MPD - 1 /\ Delta(tab, DayOf(v)) = 1)
\* @type: $moment => Bool;
FieldsDetermineAt(v) ==
  v.sod = SPM * (MPH * HourOf(v) + MinuteOf(v)) + SecondOf(v)

(* C10: arithmetic never leaves what exists; the carry is what was cut off.       *)
\* @type: ($table, $moment, $moved) => Bool;
Sound(tab, v, r) == r.ok => Exists(tab, r.v) /\ r.cd >= 0 /\ r.cs >= 0 /\ r.v.ns = v.ns /\ r.v.p = v.p
(* Resolving a carry moves days by the calendar, then seconds by the clock.       *)
\* @type: ($table, $moved) => $moved;
Resolve(tab, r) == ApplyCarry(tab, r.v, r.cd, r.cs)
\* @type: ($table, $moved) => Bool;
CarryMoves(tab, r) ==
  r.ok => LET a == Resolve(tab, r)
              days == DayOf(r.v) + r.cd
          IN a.ok => LET x == Elapsed(tab, a.v)
                         lost == IF r.v.sod > DayLength(tab, days) - 1
                                 THEN r.v.sod - (DayLength(tab, days) - 1) ELSE 0
                         start == Norm(days, Accumulated(tab, days) + r.v.sod - lost)
                     IN x = Norm(start[1], start[2] + r.cs + lost)

(* C05: years.                                                                    *)
\* @type: ($table, $moment, Int) => Bool;
YearLawAt(tab, v, n) ==
   LET r == AddYears(tab, v, n)
   IN /\ r.ok <=> (v.y + n >= MinYear /\ v.y + n <= MaxYear)
      /\ r = AddMonths(tab, v, 12 * n)
      /\ r.ok => /\ r.v.y = v.y + n /\ r.v.m = v.m
                 /\ r.v.d + r.cd = v.d /\ r.v.sod + r.cs = v.sod
                 /\ r.cd > 0 <=> (v.m = 2 /\ v.d = 29 /\ ~IsLeap(v.y + n))
                 /\ r.cd <= 1 /\ r.cs <= 2

(* C06: months, by turning pages.                                                 *)
\* @type: $moment => Int;
PageOf(w) == 12 * w.y + w.m - 1
\* @type: ($table, $moment, Int) => Bool;
MonthLawAt(tab, v, n) ==
   LET r == AddMonths(tab, v, n)
   IN /\ r.ok <=> (PageOf(v) + n >= 12 * MinYear /\ PageOf(v) + n <= 12 * MaxYear + 11)
      /\ r.ok => /\ PageOf(r.v) = PageOf(v) + n
                 /\ r.v.d + r.cd = v.d /\ r.v.sod + r.cs = v.sod
                 /\ r.cd > 0 => r.v.d = DaysInMonth(r.v.y, r.v.m)
                 /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1
\* @type: ($table, $moment, Int, Int) => Bool;
MonthsComposeAt(tab, v, a, b) ==
   LET r == AddMonths(tab, v, a)
       s == AddMonths(tab, v, a + b)
   IN (r.ok /\ s.ok) => PageOf(AddMonths(tab, r.v, b).v) = PageOf(s.v)

(* C07: days, by number.                                                          *)
\* @type: ($table, $moment, Int) => Bool;
DayLawAt(tab, v, n) ==
   LET r == AddDays(tab, v, n)
   IN /\ r.ok <=> (DayOf(v) + n >= MinDay /\ DayOf(v) + n <= MaxDay)
      /\ r.ok => /\ r.cd = 0 /\ r.v.sod + r.cs = v.sod
                 /\ r.cs > 0 => r.v.sod = DayLength(tab, DayOf(r.v)) - 1
                 /\ DayOf(r.v) = DayOf(v) + n
\* @type: ($table, $moment, Int, Int) => Bool;
DaysComposeAt(tab, v, a, b) ==
   LET r == AddDays(tab, v, a)
       s == AddDays(tab, v, a + b)
   IN r.ok => LET u == AddDays(tab, r.v, b)
              IN (u.ok <=> s.ok) /\ (u.ok => DateIn(u.v) = DateIn(s.v))

(* C08: minutes and hours, on a clock face without leap seconds.                  *)
\* @type: $moment => Int;
FaceOf(w) == DayOf(w) * MPD + MinuteOfDay(w)
\* @type: ($table, $moment, Int) => Bool;
MinuteLawAt(tab, v, n) ==
   LET r == AddM(tab, v, n)
   IN /\ r.ok <=> (FaceOf(v) + n >= MinDay * MPD /\ FaceOf(v) + n < (MaxDay + 1) * MPD)
      /\ r.ok => /\ FaceOf(r.v) = FaceOf(v) + n
                 /\ SecondOf(r.v) + r.cs = SecondOf(v) /\ r.cd = 0
                 /\ r.cs > 0 => SecondOf(r.v) = MinuteLength(tab, DayOf(r.v), MinuteOfDay(r.v)) - 1
\* @type: ($table, $moment, Int) => Bool;
HourLawAt(tab, v, n) == AddH(tab, v, n) = AddM(tab, v, n * MPH)

(* C09: seconds.                                                                  *)
\* @type: ($table, $moment) => Int;
TicksAt(tab, v) == LET p == Elapsed(tab, v) IN p[1] * SPD + p[2]
\* @type: $table => Int;
LastElapsed(tab) == MaxDay * SPD + Total(tab) + DayLength(tab, MaxDay) - 1
FirstElapsed == MinDay * SPD
\* @type: ($table, $moment, Int) => Bool;
SecondsCancelAt(tab, v, n) == LET r == AddS(tab, v, n) IN r.ok => AddS(tab, r.v, -n) = Plain(v)
\* @type: ($table, $moment, Int, Int) => Bool;
SecondsComposeAt(tab, v, a, b) ==
   LET r == AddS(tab, v, a) IN r.ok => AddS(tab, r.v, b) = AddS(tab, v, a + b)

(* Nothing between the first and the last moment is out of reach, nothing else is   *)
(* within reach.                                                                  *)
\* @type: $moment => $moment;
FirstMoment(v) == [v EXCEPT !.y = MinYear, !.m = 1, !.d = 1, !.sod = 0]
\* @type: ($table, $moment) => $moment;
LastMoment(tab, v) == [v EXCEPT !.y = MaxYear, !.m = 12, !.d = 31, !.sod = DayLength(tab, MaxDay) - 1]
\* @type: ($table, $moment, Int) => Bool;
SecondsRangeAt(tab, v, n) ==
   LET x == TicksAt(tab, v) + n
   IN AddS(tab, v, n).ok <=> (x >= TicksAt(tab, FirstMoment(v)) /\ x <= TicksAt(tab, LastMoment(tab, v)))
\* @type: ($table, $moment, $moment) => Bool;
SecondsReachAt(tab, v, w) == AddS(tab, v, TicksAt(tab, w) - TicksAt(tab, v)) = Plain([w EXCEPT !.ns = v.ns, !.p = v.p])
(* The moment after v, turning the page if v is the last of its day.               *)
\* @type: ($table, $moment) => $moment;
NextMoment(tab, v) ==
  IF v.sod = DayLength(tab, DayOf(v)) - 1 THEN [WithDate(v, NextDate(DateIn(v))) EXCEPT !.sod = 0]
  ELSE [v EXCEPT !.sod = @ + 1]
\* @type: ($table, $moment) => Bool;
TickIsSecondAt(tab, v) ==
  AddS(tab, v, 1) = IF v = LastMoment(tab, v) THEN None ELSE Plain(NextMoment(tab, v))
(* A day after n days is the next on the calendar.                                 *)
\* @type: ($table, $moment, Int) => Bool;
NextDayAt(tab, v, n) ==
  LET r == AddDays(tab, v, n)
      s == AddDays(tab, v, n + 1)
  IN (r.ok /\ s.ok) => DateIn(s.v) = NextDate(DateIn(r.v))
(* A carry of nothing moves nothing.                                                *)
\* @type: ($table, $moment) => Bool;
NothingMovesNothing(tab, v) ==
  /\ ApplyCarry(tab, v, 0, 0) = Plain(v) /\ AddS(tab, v, 0) = Plain(v) /\ AddM(tab, v, 0) = Plain(v) /\ AddH(tab, v, 0) = Plain(v)
  /\ AddDays(tab, v, 0) = Plain(v) /\ AddMonths(tab, v, 0) = Plain(v) /\ AddYears(tab, v, 0) = Plain(v)
(* Elapsed seconds order moments as their fields do, the coarsest first.             *)
\* @type: ($moment, $moment) => Bool;
FieldsBefore(v, w) ==
  \/ v.y < w.y
  \/ v.y = w.y /\ v.m < w.m
  \/ v.y = w.y /\ v.m = w.m /\ v.d < w.d
  \/ v.y = w.y /\ v.m = w.m /\ v.d = w.d /\ v.sod < w.sod
\* @type: ($table, $moment, $moment) => Bool;
OrderAt(tab, v, w) == FieldsBefore(v, w) <=> TicksAt(tab, v) < TicksAt(tab, w)
(* Later moments lead to later ones, unless days are cut off.                        *)
\* @type: ($moved, $moved) => Bool;
KeepsOrder(r, s) == (r.ok /\ s.ok /\ s.cd = 0) => ~FieldsBefore(s.v, r.v)
\* @type: ($table, $moment, $moment, Int) => Bool;
OrderKeptAt(tab, v, w, n) ==
  FieldsBefore(v, w) => /\ KeepsOrder(AddMonths(tab, v, n), AddMonths(tab, w, n))
                        /\ KeepsOrder(AddDays(tab, v, n), AddDays(tab, w, n))
                        /\ KeepsOrder(AddM(tab, v, n), AddM(tab, w, n))
                        /\ KeepsOrder(AddS(tab, v, n), AddS(tab, w, n))

(* C12, C13, C14: a Unix clock shows <<day, second of day>> with days of SPD      *)
(* seconds, and goes on by one, whatever the day's length.                         *)
\* @type: ($table, Int, Int) => Bool;
ClockRunsAt(tab, D, s) ==
   LET a == InstantOf(tab, D, s)
       b == IF s = SPD - 1 THEN InstantOf(tab, D + 1, 0) ELSE InstantOf(tab, D, s + 1)
       gap == (b[1] - a[1]) * SPD + b[2] - a[2]
   IN gap = 1 + (IF s = SPD - 1 THEN Delta(tab, D) ELSE 0)
=============================================================================
