---------------------------- MODULE GenMomentOps ----------------------------
(* Behaviours of MomentOps with the real constants, for replay into the library. *)
(* Run with -simulate; each behaviour is printed as one line of integers, 14 per *)
(* step: op, two arguments, success, then year, month, day, hour, minute, second,*)
(* nanosecond, precision, days carry, seconds carry as they are after the step.   *)
EXTENDS MomentOps, Json, IOUtils, Randomization, LeapTables

RealTab == TableOf(JsonDeserialize(IOEnv.LEAPTABLE))
Length == atoi(IOEnv.LENGTH)

VARIABLE hist

LeapDays == {Tab[i][1] : i \in 1..Len(Tab)}
Nines == {999999999, 1, 0, 65535, 65536, 123456789, 500000000}

(* TLC evaluates a LET or an argument anew at each use, so a random choice that is *)
(* used twice is bound by a quantifier or comprehension over a singleton: the     *)
(* operators below all yield singleton sets. Their argument only makes TLC        *)
(* evaluate them again in each step.                                              *)
One(S) == {RandomElement(S)}
Roll(n) == One(1..n)

SomeDay(x) == {
  CASE k <= 3 -> RandomElement(LeapDays)
    [] k = 4 -> RandomElement({MinDay, MaxDay, 0, -1, 11016, 11015, DayNumber(1900, 2, 28)})
    [] k = 5 -> DayNumber(4 * RandomElement(0..2499), 2, 28)
    [] k = 6 -> DayNumber(RandomElement(1968..2020), RandomElement(1..12), 28) + RandomElement(0..4)
    [] OTHER -> RandomElement(MinDay..MaxDay) : k \in Roll(8)}
SomeSod(D) == {
  CASE k <= 3 -> DayLength(Tab, D) - 1
    [] k = 4 -> 0
    [] OTHER -> RandomElement(0..(DayLength(Tab, D) - 1)) : k \in Roll(6)}
SomePrecision == {IF k = 1 THEN RandomElement(0..8) ELSE 8 : k \in Roll(3)}
SomeNanos == {IF k = 1 THEN RandomElement(Nines) ELSE RandomElement(0..999999999) : k \in Roll(2)}

(* The start of the period of precision p that holds the given moment.             *)
Coarsened(D, s, ns, p) ==
  LET date == DateOf(D)
      full == [y |-> date[1], m |-> date[2], d |-> date[3], sod |-> s, ns |-> ns, p |-> p]
      mod == MinuteOfDay(full)
  IN [full EXCEPT !.m = IF p >= 1 THEN @ ELSE 1,
                  !.d = IF p >= 2 THEN @ ELSE 1,
                  !.sod = IF p >= 5 THEN @
                          ELSE IF p = 4 THEN SPM * mod
                          ELSE IF p = 3 THEN SPM * MPH * (mod \div MPH) ELSE 0,
                  !.ns = IF p >= 8 THEN @ ELSE IF p = 7 THEN 1000 * (@ \div 1000)
                         ELSE IF p = 6 THEN 1000000 * (@ \div 1000000) ELSE 0]
SomeMoment(x) ==
  UNION { {Coarsened(D, s, ns, p) : s \in SomeSod(D), ns \in SomeNanos, p \in SomePrecision}
          : D \in SomeDay(x) }

Sized(x) == {
  CASE k <= 2 -> RandomElement({-1, 0, 1})
    [] k = 3 -> RandomElement(-40..40)
    [] k = 4 -> RandomElement(-1000..1000)
    [] k = 5 -> RandomElement(-30000..30000)
    [] OTHER -> RandomElement(-3000000..3000000) : k \in Roll(6)}
YearSized(x) == {IF n \in -32768..32767 THEN n ELSE 32767 : n \in Sized(x)}
ToLeap(x) == {D - DayOf(x) : D \in One(LeapDays)}
ToLeapMonth(x) == {12 * (DateOf(D)[1] - x.y) + DateOf(D)[2] - x.m : D \in One(LeapDays)}
NearEnd(x) == {IF k = 1 THEN MaxDay - DayOf(x) + RandomElement(-1..1)
               ELSE MinDay - DayOf(x) + RandomElement(-1..1) : k \in Roll(2)}

OpCode(s) == CASE s = "build" -> 1 [] s = "years" -> 2 [] s = "months" -> 3 [] s = "days" -> 4
               [] s = "hours" -> 5 [] s = "minutes" -> 6 [] s = "seconds" -> 7
               [] s = "drop" -> 8 [] s = "apply" -> 9
Row(st, v, c) == <<OpCode(st[1]), st[2], st[3], IF st[4] THEN 1 ELSE 0, v.y, v.m, v.d,
                   HourOf(v), MinuteOf(v), SecondOf(v), v.ns, v.p, c[1], c[2]>>

GenInit == /\ cur \in SomeMoment(0) /\ carry = NoCarry /\ step = <<"build", 0, 0, TRUE>>
           /\ hist = <<>>

GenAct ==
  \/ hist = <<>> /\ \E v \in SomeMoment(cur) : Build(v)
  \/ ~Resolved /\ \E k \in Roll(2) : IF k = 1 THEN Drop ELSE Apply
  \/ /\ hist # <<>> /\ Resolved
     /\ \E k \in Roll(16) :
          CASE k = 1 -> \E v \in SomeMoment(cur) : Build(v)
            [] k = 2 -> \E n \in YearSized(cur) : ByYears(n)
            [] k = 3 -> \E n \in One(-50..50) : ByYears(n)
            [] k = 4 -> \E n \in ToLeapMonth(cur) : ByMonths(n)
            [] k \in 5..6 -> \E n \in Sized(cur) : ByMonths(n)
            [] k = 7 -> \E n \in ToLeap(cur) : ByDays(n)
            [] k = 8 -> \E n \in NearEnd(cur) : ByDays(n)
            [] k = 9 -> \E n \in Sized(cur) : ByDays(n)
            [] k = 10 -> \E n \in Sized(cur) : ByHours(n)
            [] k = 11 -> \E n \in ToLeap(cur), r \in One({0, 1, MPD - 1}) : ByMinutes(n, r)
            [] k = 12 -> \E n \in Sized(cur), r \in One(0..(MPD - 1)) : ByMinutes(n, r)
            [] k = 13 -> \E n \in NearEnd(cur), r \in One({0, 1, SPD - 1}) : BySeconds(n, r)
            [] k = 14 -> \E n \in ToLeap(cur), r \in One({0, 1, SPD - 1, SPD - 2, 27}) : BySeconds(n, r)
            [] OTHER -> \E n \in Sized(cur), r \in One(0..(SPD - 1)) : BySeconds(n, r)
GenNext == GenAct /\ hist' = hist \o Row(step', cur', carry')
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>

Emit == TLCGet("level") = Length => PrintT("BEHAVIOUR " \o ToString(hist))
==============================================================================
