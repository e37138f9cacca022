----------------------------- MODULE DateTimes -----------------------------
(* Date-times and their arithmetic, as the library's users see them. A value   *)
(* is a record [y, m, d, sod, ns, p]: a date, the second of the day (leap      *)
(* seconds included: 23:59:60 is SecondsPerDay), the nanosecond within the     *)
(* second and the precision. tab is the leap-second table (LeapSeconds.tla).   *)
(*                                                                             *)
(* The lengths of minute, hour and day and the range of years are constants:   *)
(* the real ones for conformance checking, tiny ones for exhaustive checking.   *)
EXTENDS Integers, Sequences, Gregorian, LeapSeconds

(*
  @typeAlias: moment = { y: Int, m: Int, d: Int, sod: Int, ns: Int, p: Int };
  @typeAlias: fields = { y: Int, m: Int, d: Int, h: Int, mi: Int, s: Int, ms: Int, us: Int, n: Int, p: Int };
  @typeAlias: moved = { ok: Bool, v: $moment, cd: Int, cs: Int };
  @typeAlias: table = Seq(<<Int, Int, Int>>);
*)
DateTimes_aliases == TRUE

CONSTANTS
          \* @type: Int;
          SPM,       \* seconds per minute  (60)
          \* @type: Int;
          MPH,       \* minutes per hour    (60)
          \* @type: Int;
          HPD,       \* hours per day       (24)
          \* @type: Int;
          MinYear,   \* (0)
          \* @type: Int;
          MaxYear    \* (9999)

MPD == MPH * HPD
SPD == SPM * MPD
MinDay == DayNumber(MinYear, 1, 1)
MaxDay == DayNumber(MaxYear, 12, 31)

Least(a, b) == IF a < b THEN a ELSE b

\* @type: ($table, Int) => Int;
DayLength(tab, D) == SPD + Delta(tab, D)
(* Length of minute number k (0-based) of day D: only the last one varies.      *)
\* @type: ($table, Int, Int) => Int;
MinuteLength(tab, D, k) == IF k = MPD - 1 THEN SPM + Delta(tab, D) ELSE SPM

\* @type: $moment => Int;
DayOf(v) == DayNumber(v.y, v.m, v.d)
\* @type: $moment => <<Int, Int, Int>>;
DateIn(v) == <<v.y, v.m, v.d>>

(* The moment exists.                                                           *)
\* @type: ($table, $moment) => Bool;
Exists(tab, v) ==
  /\ v.y \in MinYear..MaxYear
  /\ IsDate(v.y, v.m, v.d)
  /\ v.sod >= 0 /\ v.sod < DayLength(tab, DayOf(v))

(* Minute of the day, and the fields users read.                                *)
\* @type: $moment => Int;
MinuteOfDay(v) == Least(v.sod \div SPM, MPD - 1)
\* @type: $moment => Int;
SecondOf(v) == v.sod - SPM * MinuteOfDay(v)
\* @type: $moment => Int;
MinuteOf(v) == MinuteOfDay(v) % MPH
\* @type: $moment => Int;
HourOf(v) == MinuteOfDay(v) \div MPH

\* @type: ($moment, <<Int, Int, Int>>) => $moment;
WithDate(v, date) == [v EXCEPT !.y = date[1], !.m = date[2], !.d = date[3]]

NoMoment == [y |-> 0, m |-> 0, d |-> 0, sod |-> 0, ns |-> 0, p |-> 0]
None == [ok |-> FALSE, v |-> NoMoment, cd |-> 0, cs |-> 0]
\* @type: ($moment, Int, Int) => $moved;
Some(v, days, secs) == [ok |-> TRUE, v |-> v, cd |-> days, cs |-> secs]

InRange(D) == D >= MinDay /\ D <= MaxDay

(* v has a date in range but possibly a second of the day that day lacks: the   *)
(* last one is used and the excess goes into the carry.                         *)
\* @type: ($table, $moment, Int) => $moved;
Settle(tab, v, days) ==
  LET last == DayLength(tab, DayOf(v)) - 1
  IN IF v.sod > last THEN Some([v EXCEPT !.sod = last], days, v.sod - last)
     ELSE Some(v, days, 0)

(* Place a (year, month, day) whose day may exceed the month.                   *)
\* @type: ($table, $moment, Int, Int) => $moved;
SettleDate(tab, v, y, m) ==
  LET dd == Least(v.d, DaysInMonth(y, m))
  IN Settle(tab, WithDate(v, <<y, m, dd>>), v.d - dd)

\* @type: ($table, $moment, Int) => $moved;
AddYears(tab, v, n) ==
  LET y == v.y + n
  IN IF y < MinYear \/ y > MaxYear THEN None ELSE SettleDate(tab, v, y, v.m)

\* @type: ($table, $moment, Int) => $moved;
AddMonths(tab, v, n) ==
  IF n > 12 * (MaxYear - MinYear + 1) \/ n < -12 * (MaxYear - MinYear + 1) THEN None
  ELSE LET k == 12 * v.y + (v.m - 1) + n
           y == k \div 12
       IN IF y < MinYear \/ y > MaxYear THEN None ELSE SettleDate(tab, v, y, (k % 12) + 1)

\* @type: ($table, $moment, Int) => $moved;
AddDays(tab, v, n) ==
  IF n > MaxDay - MinDay \/ n < MinDay - MaxDay THEN None
  ELSE LET D == DayOf(v) + n
       IN IF ~InRange(D) THEN None ELSE Settle(tab, WithDate(v, DateOf(D)), 0)

(* Certainly out of range; keeps the sums below within 32 bits.                  *)
TooFar(days) == days > MaxDay - MinDay + 3 \/ days < MinDay - MaxDay - 3

(* n minutes are given as days * MPD + mins with 0 <= mins < MPD.               *)
\* @type: ($table, $moment, Int, Int) => $moved;
AddMinutes(tab, v, days, mins) ==
  IF TooFar(days) THEN None
  ELSE LET k == MinuteOfDay(v) + mins
           D == DayOf(v) + days + k \div MPD
           mod == k % MPD
           s == SecondOf(v)
           last == MinuteLength(tab, D, mod) - 1
           sec == Least(s, last)
       IN IF ~InRange(D) THEN None
          ELSE Some([WithDate(v, DateOf(D)) EXCEPT !.sod = SPM * mod + sec], 0, s - sec)

(* h hours as days * HPD + hrs with 0 <= hrs < HPD.                             *)
\* @type: ($table, $moment, Int, Int) => $moved;
AddHours(tab, v, days, hrs) == AddMinutes(tab, v, days, hrs * MPH)

(* Elapsed seconds since 1970-01-01T00:00:00 as a pair <<q, r>> denoting        *)
(* q * SPD + r with 0 <= r < SPD, so that nothing exceeds 32 bits.              *)
\* @type: (Int, Int) => <<Int, Int>>;
Norm(q, r) == <<q + r \div SPD, r % SPD>>
\* @type: (<<Int, Int>>, <<Int, Int>>) => Bool;
PairLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* @type: (<<Int, Int>>, <<Int, Int>>) => Bool;
PairLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* @type: ($table, Int) => <<Int, Int>>;
StartOfDay(tab, D) == Norm(D, Accumulated(tab, D))
\* @type: ($table, $moment) => <<Int, Int>>;
Elapsed(tab, v) == Norm(DayOf(v), v.sod + Accumulated(tab, DayOf(v)))

(* The day during which elapsed time t falls: the last one to start at or before   *)
(* it. Start of day D is <<D, a>> with a the leap seconds before it, as running     *)
(* totals never amount to a day.                                                    *)
\* @type: ($table, <<Int, Int>>) => Int;
DayAt(tab, t) == IF t[2] - SPD >= Accumulated(tab, t[1] + 1) THEN t[1] + 1
                 ELSE IF t[2] >= Accumulated(tab, t[1]) THEN t[1] ELSE t[1] - 1

\* @type: ($table, $moment, <<Int, Int>>) => $moment;
MomentAt(tab, v, t) ==
  LET D == DayAt(tab, t)
      date == DateOf(D)
  IN [v EXCEPT !.y = date[1], !.m = date[2], !.d = date[3],
               !.sod = (t[1] - D) * SPD + t[2] - Accumulated(tab, D)]

(* n seconds as days * SPD + secs with 0 <= secs < SPD.                         *)
\* @type: ($table, $moment, Int, Int) => $moved;
AddSeconds(tab, v, days, secs) ==
  IF TooFar(days) THEN None
  ELSE LET e == Elapsed(tab, v)
           t == Norm(e[1] + days, e[2] + secs)
       IN IF ~InRange(DayAt(tab, t)) THEN None ELSE Some(MomentAt(tab, v, t), 0, 0)

(* What a Unix clock reading converts to: a day and a second of that day, with    *)
(* every day counted as SPD seconds, plus the leap seconds before the day.        *)
\* @type: ($table, Int, Int) => <<Int, Int>>;
InstantOf(tab, D, sod) == Norm(D, sod + Accumulated(tab, D))

(* Resolving a carry of days and seconds.                                       *)
\* @type: ($table, $moment, Int, Int) => $moved;
ApplyCarry(tab, v, days, secs) ==
  LET a == AddDays(tab, v, days)
  IN IF ~a.ok THEN None
     ELSE LET n == secs + a.cs
          IN AddSeconds(tab, a.v, n \div SPD, n % SPD)

----------------------------------------------------------------------------
(* Building. f is a record of the fields supplied, all the coarser ones than    *)
(* the finest (precision p) included; finer ones have been defaulted.           *)
(* Outcome sets: "ok", "inv" (invalid), "oob" (out of bounds).                  *)
\* @type: ($table, $fields) => Set(Str);
BuildOutcomes(tab, f) ==
  LET late == f.y > MaxYear
      dateOk == IsDate(f.y, f.m, f.d)
      timeOk == /\ f.h >= 0 /\ f.h < HPD /\ f.mi >= 0 /\ f.mi < MPH
                /\ f.s >= 0
                /\ (dateOk => f.s < MinuteLength(tab, DayNumber(f.y, f.m, f.d), f.h * MPH + f.mi))
      subOk == f.ms < 1000 /\ f.us < 1000 /\ f.n < 1000
      bad == ~dateOk \/ ~timeOk \/ ~subOk
  IN IF late /\ bad THEN {"oob", "inv"}
     ELSE IF late THEN {"oob"}
     ELSE IF bad THEN {"inv"}
     ELSE {"ok"}

(* What a builder makes of the values given (g: fields 1..9 year, month, day,    *)
(* hour, minute, second, millisecond, microsecond, nanosecond; -1: not supplied).  *)
(* Building is specified when nothing coarser than the finest field is missing;    *)
(* finer fields are at the start of their period.                                  *)
Unset == -1
\* @type: Seq(Int);
Defaults == <<0, 1, 1, 0, 0, 0, 0, 0, 0>>
\* @type: Seq(Int) => Int;
FinestOf(g) == CHOOSE i \in 1..9 : g[i] # Unset /\ \A j \in (i + 1)..9 : g[j] = Unset
\* @type: Seq(Int) => Bool;
BuildableFields(g) == /\ \E i \in 1..9 : g[i] # Unset
                      /\ \A i \in 1..FinestOf(g) : g[i] # Unset
\* @type: Seq(Int) => $fields;
Filled(g) ==
  LET finest == FinestOf(g)
      at(i) == IF i <= finest THEN g[i] ELSE Defaults[i]
  IN [y |-> at(1), m |-> at(2), d |-> at(3), h |-> at(4), mi |-> at(5), s |-> at(6),
      ms |-> at(7), us |-> at(8), n |-> at(9), p |-> finest - 1]

\* @type: $fields => $moment;
Built(f) ==
  [y |-> f.y, m |-> f.m, d |-> f.d, sod |-> SPM * (MPH * f.h + f.mi) + f.s,
   ns |-> f.ms * 1000000 + f.us * 1000 + f.n, p |-> f.p]
=============================================================================
