----------------------------- MODULE GenBuilder -----------------------------
(* Histories of setter and build calls on one builder, with the real constants,  *)
(* for replay into the library. Each is printed as one line of integers, 12 per  *)
(* step: <<1, field, value, 0...>> for a setter; <<2, outcome, 0, year, month,   *)
(* day, hour, minute, second, nanosecond, precision, 0>> for a build, where       *)
(* outcome is 0 for success, 1 invalid, 2 out of bounds, 3 either of these;        *)
(* <<3, 0...>> forgets the builder and starts a new one.                            *)
EXTENDS Builder, Json, IOUtils, LeapTables

RealTab == TableOf(JsonDeserialize(IOEnv.LEAPTABLE))
Length == atoi(IOEnv.LENGTH)
NoValues(i) == {}

VARIABLE hist

One(S) == {RandomElement(S)}
Roll(n) == One(1..n)
LeapDates == {DateOf(Tab[i][1]) : i \in 1..Len(Tab)}

(* Mostly valid values, given what is already set.                                 *)
Plausible(i, g) ==
  CASE i = 1 -> {IF k = 1 THEN RandomElement({0, 9999, 1900, 2000, 2016, 1972}) ELSE RandomElement(0..9999) : k \in Roll(2)}
    [] i = 2 -> One(1..12)
    [] i = 3 -> {IF k = 1 THEN RandomElement(28..31) ELSE RandomElement(1..28) : k \in Roll(3)}
    [] i = 4 -> {IF k = 1 THEN 23 ELSE RandomElement(0..23) : k \in Roll(2)}
    [] i = 5 -> {IF k = 1 THEN 59 ELSE RandomElement(0..59) : k \in Roll(2)}
    [] i = 6 -> {CASE k = 1 -> RandomElement({59, 60}) [] OTHER -> RandomElement(0..59) : k \in Roll(3)}
    [] OTHER -> One(0..999)
Wild(i) ==
  CASE i = 1 -> One({10000, 10001, 65535, 12000, 25600})
    [] i = 2 -> One({0, 13, 255})
    [] i = 3 -> One({0, 29, 30, 31, 32, 255})
    [] i = 4 -> One({24, 25, 255})
    [] i = 5 -> One({60, 61, 255})
    [] i = 6 -> One({60, 61, 62, 255})
    [] OTHER -> One({1000, 1001, 65535})

SetRow(i, x) == <<1, i, x, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
BuildRow(o, v) ==
  <<2, IF o = {"ok"} THEN 0 ELSE IF o = {"inv"} THEN 1 ELSE IF o = {"oob"} THEN 2 ELSE 3, 0,
    v.y, v.m, v.d, HourOf(v), MinuteOf(v), SecondOf(v), v.ns, v.p, 0>>
FreshRow == <<3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

AnySupplied == \E i \in 1..9 : Supplied(i)
Buildable == BuildableFields(f)

(* The next field worth setting: fill up in random order towards a target          *)
(* precision, then overwrite.                                                       *)
Missing == {i \in 1..Finest : ~Supplied(i)}

DoSet(i, x) == Set(i, x) /\ hist' = hist \o SetRow(i, x)
DoBuild == Build /\ hist' = hist \o (IF out' = {"ok"} THEN BuildRow(out', Value)
                                     ELSE BuildRow(out', [y |-> 0, m |-> 0, d |-> 0, sod |-> 0, ns |-> 0, p |-> 0]))
DoFresh == f' = [i \in 1..9 |-> Unset] /\ out' = {} /\ hist' = hist \o FreshRow

GenInit == Init /\ hist = <<>>
(* f # <<>> keeps TLC from choosing k once and for all.                              *)
GenNext ==
  f # <<>> /\ \E k \in Roll(20) :
    CASE ~AnySupplied -> \E i \in Roll(9) : \E x \in Plausible(i, f) : DoSet(i, x)
      [] AnySupplied /\ ~Buildable /\ k <= 17 ->
           \E i \in One(Missing) : \E x \in Plausible(i, f) : DoSet(i, x)
      [] AnySupplied /\ ~Buildable /\ k > 17 ->
           \E i \in Roll(9) : \E x \in Plausible(i, f) : DoSet(i, x)
      [] Buildable /\ out # {} /\ "ok" \notin out /\ k > 12 -> DoFresh
      [] Buildable /\ k <= 10 -> DoBuild
      [] Buildable /\ k \in 11..14 -> \E i \in Roll(9) : \E x \in Plausible(i, f) : DoSet(i, x)
      [] Buildable /\ k = 15 -> \E i \in Roll(9) : \E x \in Wild(i) : DoSet(i, x)
      [] Buildable /\ k = 16 -> \E t \in One(LeapDates) : \E j \in Roll(6) :
            LET x == IF j <= 3 THEN t[j] ELSE IF j = 4 THEN HPD - 1 ELSE IF j = 5 THEN MPH - 1 ELSE SPM
            IN DoSet(j, x)
      [] OTHER -> DoFresh
GenSpec == GenInit /\ [][GenNext]_<<bvars, hist>>

Emit == TLCGet("level") = Length => PrintT("BEHAVIOUR " \o ToString(hist))
=============================================================================
