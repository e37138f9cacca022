------------------------------- MODULE TraceDT -------------------------------
(* Is a recorded execution of the real library a behaviour of the specification? *)
(* Every line of the trace is one call (or a run of calls of the same shape) with *)
(* its arguments and everything observed of its outcome; the outcome is compared  *)
(* with what DateTimes.tla says. What differs is reported as a set of aspects and *)
(* checking goes on with the next line. The harness that records traces knows     *)
(* nothing of calendars: it only reports what it was given.                        *)
EXTENDS DateTimes, BigInt, Verdicts, Json, IOUtils, LeapTables

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,       \* next line
          tab,     \* leap-second table in use
          cur,     \* the date-time the program holds
          lost,    \* the program and the specification have parted ways
          fb,      \* the fields given to the builder in use
          last,    \* where a run of calls must go on
          adds     \* the system clock leaves leap seconds out, and conversion puts them in

vars == <<l, tab, cur, lost, fb, last, adds, shown>>

Has(e, k) == k \in DOMAIN e

Nothing == [y |-> 1970, m |-> 1, d |-> 1, sod |-> 0, ns |-> 0, p |-> 8]
NoFields == <<Unset, Unset, Unset, Unset, Unset, Unset, Unset, Unset, Unset>>

(* What users see of a value: the fields; nanosecond and precision through debug   *)
(* output, -1 if that could not be read.                                            *)
Row(v) == <<v.y, v.m, v.d, HourOf(v), MinuteOf(v), SecondOf(v), v.ns, v.p>>
Moment(row) == [y |-> row[1], m |-> row[2], d |-> row[3],
                sod |-> SPM * (MPH * row[4] + row[5]) + row[6], ns |-> row[7], p |-> row[8]]
SameFields(v, row) == /\ v.y = row[1] /\ v.m = row[2] /\ v.d = row[3]
                      /\ HourOf(v) = row[4] /\ MinuteOf(v) = row[5] /\ SecondOf(v) = row[6]
Shows(v, row) == Report(SameFields(v, row), "fields")
                 \cup Report(row[7] = -1 \/ row[7] = v.ns, "nanosecond")
                 \cup Report(row[8] = -1 \/ row[8] = v.p, "precision")

-------------------------------------------------------------------------------
(* Calls.                                                                           *)
(* A count n too large for 32 bits comes as a BigInt; it is n = q * k + r.           *)
Split(n, k) == DivModSmall(n, k)
Far(q) == ~IsSmall(q)

Result(e) ==
  CASE e.o = "ay" -> AddYears(tab, cur, e.n)
    [] e.o = "am" -> AddMonths(tab, cur, e.n)
    [] e.o = "ad" -> AddDays(tab, cur, e.n)
    [] e.o = "ah" -> AddHours(tab, cur, e.n \div HPD, e.n % HPD)
    [] e.o = "an" -> LET qr == Split(e.n, MPD)
                     IN IF Far(qr[1]) THEN None ELSE AddMinutes(tab, cur, ToInt(qr[1]), qr[2])
    [] e.o = "as" -> LET qr == Split(e.n, SPD)
                     IN IF Far(qr[1]) THEN None ELSE AddSeconds(tab, cur, ToInt(qr[1]), qr[2])

(* Everything done with the result of a checked call.
   v: the value under the carry; c: the carry; hc: has_carry; un: unwrap (0 gave the
   value, 1 panicked, 2 gave something else); dr: drop_carry likewise; ap: applying
   the carry, checked (<<>>: gave the value; <<0, row...>>: gave that; <<1>>: nothing;
   <<2>>: panicked); au: unchecked (0 same as checked, 1 panicked, 2 else); u: the
   unchecked form of the call (same coding); kp: 0 if the original value is still
   the same and gives the same result; eq: 1 if the result equals the value built
   from its fields, 0 if not; st: 1 if it equals the value operated on.               *)
CarryAspects(e, r) ==
     Report(e.c = <<r.cd, r.cs>>, "carry")
     \cup (IF Has(e, "hc") THEN Report((e.hc = 1) = (r.cd # 0 \/ r.cs # 0), "has_carry") ELSE {})
     \cup (IF Has(e, "un") THEN Report(e.un = (IF r.cd # 0 \/ r.cs # 0 THEN 1 ELSE 0), "unwrap") ELSE {})
     \cup (IF Has(e, "dr") THEN Report(e.dr = 0, "drop") ELSE {})

ApplyAspects(e, r) ==
  IF ~Has(e, "ap") THEN {}
  ELSE LET a == ApplyCarry(tab, r.v, r.cd, r.cs)
           seen == IF e.ap = <<>> THEN <<0>> \o e.v ELSE e.ap
       IN (IF seen[1] = 2 THEN {"apply", "apply_panic"}
           ELSE IF a.ok # (seen[1] = 0) THEN {"apply"}
           ELSE IF a.ok THEN {"apply_" \o x : x \in Shows(a.v, SubSeq(seen, 2, 9))}
           ELSE {})
          \cup (IF Has(e, "au") THEN Report(e.au = (IF a.ok THEN 0 ELSE 1), "apply_unchecked") ELSE {})

Unchecked(e, ok) == IF ~Has(e, "u") THEN {}
                    ELSE IF ok THEN (IF e.u = 0 THEN {} ELSE IF e.u = 1 THEN {"unchecked_panic"} ELSE {"unchecked_value"})
                    ELSE Report(e.u = 1, "unchecked_no_panic")
Kept(e) == IF Has(e, "kp") THEN Report(e.kp = 0, "kept") ELSE {}

OpAspects(e, r) ==
  (IF e.r = "panic" THEN {"panic", "outcome"}
   ELSE IF r.ok # (e.r = "some") THEN {"outcome"}
   ELSE IF ~r.ok THEN Unchecked(e, FALSE)
   ELSE Shows(r.v, e.v) \cup CarryAspects(e, r) \cup ApplyAspects(e, r) \cup Unchecked(e, TRUE)
        \cup (IF Has(e, "eq") THEN Report(e.eq = 1, "equal_built") ELSE {})
        \cup (IF Has(e, "st") THEN Report((e.st = 1) = (r.v = cur), "equal_start") ELSE {}))
  \cup Kept(e)

(* The value the program goes on with: k = 0 the one it had, 1 the result with the   *)
(* carry dropped, 2 the result with the carry applied.                                 *)
Onward(e, r) ==
  IF ~r.ok THEN cur
  ELSE CASE e.k = 0 -> cur
         [] e.k = 1 -> r.v
         [] e.k = 2 -> LET a == ApplyCarry(tab, r.v, r.cd, r.cs) IN IF a.ok THEN a.v ELSE cur

-------------------------------------------------------------------------------
(* Building. r: "ok", "inv", "oob" or "panic"; v: what the value shows; u: the        *)
(* unchecked form.                                                                     *)
BuildAspects(e, g) ==
  LET f == Filled(g)
      outs == BuildOutcomes(tab, f)
  IN (IF e.r = "panic" THEN {"build_panic", "build_outcome"}
      ELSE IF e.r \notin outs THEN {"build_outcome"}
      ELSE IF e.r # "ok" THEN {}
      ELSE {"build_" \o x : x \in Shows(Built(f), e.v)})
     \cup (IF Has(e, "u") THEN {"build_" \o x : x \in Unchecked(e, outs = {"ok"})} ELSE {})
     \cup (IF Has(e, "eq") THEN Report(e.eq = 1, "build_again") ELSE {})
     \cup (IF Has(e, "ef") THEN Report(e.ef = 1, "build_fresh") ELSE {})

(* All values of field i, given as runs <<from, to, outcome>>. Verdicts can change    *)
(* only at the cuts.                                                                   *)
Cuts(i) == IF i \in 2..6 THEN (0..65) \cup {255}
           ELSE {0, 1, 999, 1000, 1001, 9999, 10000, 10001, 65535}
Top(i) == IF i \in 2..6 THEN 255 ELSE 65535
Partition(runs, top) ==
  /\ Len(runs) > 0 /\ runs[1][1] = 0 /\ runs[Len(runs)][2] = top
  /\ \A j \in 1..Len(runs) : runs[j][1] <= runs[j][2]
  /\ \A j \in 1..(Len(runs) - 1) : runs[j + 1][1] = runs[j][2] + 1
SweepAspects(e) ==
  LET at(x) == BuildOutcomes(tab, Filled([e.f EXCEPT ![e.i] = x]))
      agree(j, x) == (x >= e.runs[j][1] /\ x <= e.runs[j][2]) => e.runs[j][3] \in at(x)
  IN Report(/\ Partition(e.runs, Top(e.i))
            /\ \A j \in 1..Len(e.runs) :
                 /\ e.runs[j][3] \in at(e.runs[j][1])
                 /\ e.runs[j][3] \in at(e.runs[j][2])
                 /\ \A x \in Cuts(e.i) : agree(j, x), "build_outcome")

(* The days of a month, built one by one with the rest of the fields given, read back *)
(* as runs <<d, year, month, day, count>> in which the day goes up by one each time.   *)
MonthBackAspects(e) ==
  Report(/\ e.runs = << <<1, e.y, e.m, 1, DaysInMonth(e.y, e.m)>> >>, "build_fields")

(* All seconds of a day, as runs <<second of the day, hour, minute, second, count>>.  *)
RunsToTheEnd(runs, D, len) ==
  /\ Len(runs) > 0 /\ runs[1][1] = 0
  /\ runs[Len(runs)][1] + runs[Len(runs)][5] = len
  /\ \A j \in 1..Len(runs) :
       LET k == runs[j][1] \div SPM
           mod == IF k >= MPD THEN MPD - 1 ELSE k
       IN /\ runs[j][2] = mod \div MPH /\ runs[j][3] = mod % MPH
          /\ runs[j][4] = runs[j][1] - SPM * mod
          /\ runs[j][4] + runs[j][5] <= MinuteLength(tab, D, mod)
          /\ j < Len(runs) => runs[j + 1][1] = runs[j][1] + runs[j][5]
DayBackAspects(e) ==
  LET D == DayNumber(e.y, e.m, e.d)
  IN Report(RunsToTheEnd(e.runs, D, DayLength(tab, D)), e.aspect)

(* Days reached from a value by adding k, k + 1, ... k + len - 1 days one after the   *)
(* other (or by one addition each): one run per month. rest: <<hour, minute, second,   *)
(* nanosecond, precision, days carry, seconds carry>>. at: where the run must go on.    *)
WalkAspects(e) ==
  LET v == Moment(e.b)
      D == DayOf(v) + e.k
      r == AddDays(tab, v, e.k)
  IN IF ~r.ok \/ ~InRange(D + e.len - 1) THEN {"outcome"}
     ELSE Report(/\ SubSeq(Row(r.v), 1, 3) = <<e.y, e.m, e.d>>
                 /\ e.d + e.len - 1 <= DaysInMonth(e.y, e.m)
                 /\ e.k = last, "fields")
          \cup Report(LET x == Row(r.v)
                      IN /\ x[4] = e.rest[1] /\ x[5] = e.rest[2] /\ x[6] = e.rest[3], "fields")
          \cup Report(e.rest[4] \in {-1, v.ns}, "nanosecond")
          \cup Report(e.rest[5] \in {-1, v.p}, "precision")
          \cup Report(e.rest[6] = 0 /\ e.rest[7] = 0, "carry")

-------------------------------------------------------------------------------
(* Equality. *)
EqAspects(e) == Report((e.r = 1) = (e.a = e.b), "equality")
                \cup Report(e.ne = 1 - e.r, "equality")
(* Which values of one field make a value that equals a.                               *)
EqSweepAspects(e) == Report(e.same = <<e.x>>, "equality")

-------------------------------------------------------------------------------
(* System times: a reading of the Unix clock as day, second of the day and nanosecond, *)
(* converted to ticks at the given scale, shown as days, seconds and ticks within the   *)
(* second (any of which may exceed 32 bits: the days come as a BigInt).                  *)
SysAspects(e) ==
  LET big == Far(e.D)
      D == ToInt(e.D)
      acc == IF ~adds THEN 0 ELSE IF ~big THEN Accumulated(tab, D) ELSE IF Neg(e.D) THEN 0 ELSE Total(tab)
      s == e.s + acc
      days == Add(e.D, Of(s \div SPD))
      sub == e.ns \div (1000000000 \div e.scale)
  IN IF e.r = "panic" THEN {"sys_panic", "sys"}
     ELSE IF e.r = "err" THEN {"sys"}
     ELSE Report(e.i[1] = days /\ e.i[2] = s % SPD, "sys")
          \cup Report(e.i[3] = sub, "sys_subsecond")

(* The clock is read: day D and second s of the day if it leaves leap seconds out.       *)
(* Whether it does is seen from the date and time that the system itself makes of that. *)
LeavesOut(e) == LET date == DateOf(e.D)
                IN e.shows = <<date[1], date[2], date[3], e.s \div (SPM * MPH), (e.s \div SPM) % MPH, e.s % SPM>>
(* The other kind of clock is only looked at where the two differ.                       *)
NowAspects(e) ==
  LET acc == Accumulated(tab, e.D)
      q == (e.s - acc) \div SPD
      s == (e.s - acc) % SPD
      date == DateOf(e.D + q)
  IN Report(LeavesOut(e) \/ e.shows = <<date[1], date[2], date[3], s \div (SPM * MPH), (s \div SPM) % MPH, s % SPM>>, "clock")

(* The same clock reading (day D, second of the day s) converted to an instant, and    *)
(* the moment reached by adding that many seconds to 1970-01-01T00:00:00. A reading that  *)
(* was removed denotes no moment.                                                          *)
AgreeAspects(e) ==
  IF e.s >= DayLength(tab, e.D) THEN {}
  ELSE IF e.r # "some" THEN {"agree"}
  ELSE LET date == DateOf(e.D)
       IN Report(SubSeq(e.v, 1, 6) = <<date[1], date[2], date[3], e.s \div (SPM * MPH),
                                       (e.s \div SPM) % MPH, e.s % SPM>>, "agree")

-------------------------------------------------------------------------------
OtherAspects(e) ==
  CASE e.e = "bbuild" -> BuildAspects(e, fb)
    [] e.e = "build" -> BuildAspects(e, e.f)
    [] e.e = "bsweep" -> SweepAspects(e)
    [] e.e = "bmonth" -> MonthBackAspects(e)
    [] e.e = "day"   -> DayBackAspects(e)
    [] e.e = "eq"    -> EqAspects(e)
    [] e.e = "eqsweep" -> EqSweepAspects(e)
    [] e.e = "sys"   -> SysAspects(e)
    [] e.e = "agree" -> AgreeAspects(e)
    [] e.e = "loaded" -> Report(e.r = "ok", "load")

Note(S) == NoteAt(l, S)

Init == /\ l = 1 /\ tab = <<>> /\ cur = Nothing /\ lost = FALSE /\ fb = NoFields /\ last = 0 /\ adds = TRUE
        /\ shown = <<>>

(* An operation on the value held.                                                      *)
Op(e) ==
  /\ e.e = "op"
  /\ IF lost THEN UNCHANGED <<cur, lost>> /\ Note({})
     ELSE LET r == Result(e)
              S == OpAspects(e, r)
          IN /\ Note(S)
             /\ cur' = Onward(e, r)
             /\ lost' = (S \ {"kept", "unwrap", "has_carry", "equal_built", "equal_start"} # {} /\ e.k # 0)
  /\ UNCHANGED <<tab, fb, last, adds>>

(* The program builds a value to work on from its fields; "no" if that failed.          *)
From(e) ==
  /\ e.e = "from"
  /\ cur' = Moment(e.b)
  /\ LET ok == Exists(tab, Moment(e.b))
         S == IF (e.r = "ok") # ok THEN {"base"} ELSE {}
     IN Note(S) /\ lost' = (~ok \/ S # {})
  /\ UNCHANGED <<tab, fb, last, adds>>

Table(e) == /\ e.e = "table"
            /\ tab' = TableOf(e.t)
            /\ Note(Report(WellFormed(TableOf(e.t)), "table"))
            /\ UNCHANGED <<cur, lost, fb, last, adds>>

BuilderNew(e) == e.e = "bnew" /\ fb' = NoFields /\ Note({}) /\ UNCHANGED <<tab, cur, lost, last, adds>>
BuilderSet(e) == e.e = "bset" /\ fb' = [fb EXCEPT ![e.i] = e.x] /\ Note({}) /\ UNCHANGED <<tab, cur, lost, last, adds>>

WalkFrom(e) == e.e = "walkfrom" /\ last' = e.k /\ Note({}) /\ UNCHANGED <<tab, cur, lost, fb, adds>>
Walk(e) == e.e = "walk" /\ last' = e.k + e.len /\ Note(WalkAspects(e)) /\ UNCHANGED <<tab, cur, lost, fb, adds>>

Other(e) == /\ e.e \in {"bbuild", "build", "bsweep", "bmonth", "day", "eq", "eqsweep", "sys", "agree", "loaded"}
            /\ Note(OtherAspects(e))
            /\ UNCHANGED <<tab, cur, lost, fb, last, adds>>

Now(e) == e.e = "now" /\ adds' = LeavesOut(e) /\ Note(NowAspects(e)) /\ UNCHANGED <<tab, cur, lost, fb, last>>

Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET e == Log[l]
           IN Op(e) \/ From(e) \/ Table(e) \/ BuilderNew(e) \/ BuilderSet(e) \/ WalkFrom(e) \/ Walk(e) \/ Now(e) \/ Other(e)
        /\ EndAt(l, Log)

Spec == Init /\ [][Next]_vars
===============================================================================
