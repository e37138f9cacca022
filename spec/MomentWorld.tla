---------------------------- MODULE MomentWorld ----------------------------
(* Time itself, in a small world: an atomic clock ticks once a second from the *)
(* first moment of MinYear to the last of MaxYear, across a calendar whose     *)
(* days have the lengths the leap-second table says. Every moment there is     *)
(* becomes a state, and the laws below are checked in each: they say what the  *)
(* arithmetic of DateTimes.tla means in terms of the ticking clock and the     *)
(* turning calendar pages, not in terms of formulas.                            *)
EXTENDS MomentLaws, LeapTables, TLC

CONSTANTS Tables    \* leap-second tables to explore

VARIABLES tab,      \* the table in force
          v,        \* the present moment
          e         \* elapsed seconds since 1970-01-01T00:00:00

vars == <<tab, v, e>>

Stamp(y, m, d, sod) == [y |-> y, m |-> m, d |-> d, sod |-> sod, ns |-> 7, p |-> 5]
Genesis == Stamp(MinYear, 1, 1, 0)
Epoch == Stamp(1970, 1, 1, 0)

(* Starting the clock on the first of any month; it stops on the first of the   *)
(* next, where the count it arrives with has to be the one that month starts    *)
(* with (ElapsedCounts), so together the runs cover all of time.                *)
Init == /\ tab \in Tables
        /\ \E y \in MinYear..MaxYear, m \in 1..12 :
             /\ v = Stamp(y, m, 1, 0)
             /\ e = DayNumber(y, m, 1) * SPD + Accumulated(tab, DayNumber(y, m, 1))

AtEndOfDay == v.sod = DayLength(tab, DayOf(v)) - 1
IsLastMoment == DateIn(v) = <<MaxYear, 12, 31>> /\ AtEndOfDay

Tick == /\ ~IsLastMoment
        /\ v.d = 1 /\ v.sod = 0 => TLCGet("level") = 1
        /\ v' = NextMoment(tab, v)
        /\ e' = e + 1
        /\ UNCHANGED tab

Next == Tick
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
SecondSteps == {-2 * SPD - 1, -SPD, -SPM, -2, -1, 0, 1, 2, SPM, SPD - 1, SPD, SPD + 1, 60 * SPD}
MinuteSteps == {-MPD * 60 - 1, -MPD, -MPH, -1, 0, 1, MPH, MPD - 1, MPD, 3 * MPD + 1}
HourSteps == {-HPD * 2, -1, 0, 1, HPD, 59 * HPD}
ShortDaySteps == {-31, -1, 0, 1, 28, 30}
DaySteps == ShortDaySteps \cup {-366, 59, 365, 366, 1461}
MonthSteps == {-13, -12, -2, -1, 0, 1, 2, 3, 11, 12, 24, 60}
YearSteps == {-4, -1, 0, 1, 2, 4}

TypeOK == Exists(tab, v)
TableLookups == LookupsAgree(tab, DayOf(v))

(* C09, C12, C14: elapsed seconds are what the clock counted.                     *)
ElapsedCounts == LET p == Elapsed(tab, v) IN p[1] * SPD + p[2] = e /\ p[2] \in 0..(SPD - 1)
ElapsedDenotes == MomentAt(tab, v, Norm(e \div SPD, e % SPD)) = v
SecondsFromGenesis == AddS(tab, Genesis, e - FirstElapsed) = Plain(v)
SecondsFromEpoch == AddS(tab, Epoch, e) = Plain(v)
SecondsBack == AddS(tab, v, FirstElapsed - e) = Plain(Genesis)
SecondsRange == \A n \in SecondSteps :
                   AddS(tab, v, n).ok <=> (e + n >= FirstElapsed /\ e + n <= LastElapsed(tab))
SecondsCancel == \A n \in SecondSteps : SecondsCancelAt(tab, v, n)
SecondsCompose == \A a, b \in SecondSteps : SecondsComposeAt(tab, v, a, b)

SecondsReach == \A w \in {FirstMoment(v), LastMoment(tab, v), Epoch, Genesis} : SecondsReachAt(tab, v, w)
SecondsEnds == SecondsRangeAt(tab, v, FirstElapsed - e) /\ SecondsRangeAt(tab, v, FirstElapsed - e - 1)
               /\ SecondsRangeAt(tab, v, LastElapsed(tab) - e) /\ SecondsRangeAt(tab, v, LastElapsed(tab) - e + 1)
OneSecond == TickIsSecondAt(tab, v)
NothingMoves == NothingMovesNothing(tab, v)
(* Later moments.                                                                 *)
Ahead == {AddS(tab, v, n) : n \in {1, SPD, 31 * SPD + 1, 60 * SPD}}
Order == \A r \in Ahead : r.ok => OrderAt(tab, v, r.v) /\ OrderAt(tab, r.v, v)
OrderKept == \A r \in Ahead : r.ok => \A n \in {-13, -1, 1, 2, 12, 1461} : OrderKeptAt(tab, v, r.v, n)

(* C02: the fields show the moment.                                               *)
FieldsShow == FieldsShowAt(tab, v)

(* C10: arithmetic never leaves what exists; the carry is what was cut off.       *)
AllSound == /\ \A n \in YearSteps : Sound(tab, v, AddYears(tab, v, n))
            /\ \A n \in MonthSteps : Sound(tab, v, AddMonths(tab, v, n))
            /\ \A n \in DaySteps : Sound(tab, v, AddDays(tab, v, n))
            /\ \A n \in MinuteSteps : Sound(tab, v, AddM(tab, v, n))
            /\ \A n \in SecondSteps : Sound(tab, v, AddS(tab, v, n))
CarriesMove == /\ \A n \in YearSteps : CarryMoves(tab, AddYears(tab, v, n))
               /\ \A n \in MonthSteps : CarryMoves(tab, AddMonths(tab, v, n))
               /\ \A n \in DaySteps : CarryMoves(tab, AddDays(tab, v, n))
               /\ \A n \in MinuteSteps : CarryMoves(tab, AddM(tab, v, n))
NoCarryNoMove == \A n \in MonthSteps :
   LET r == AddMonths(tab, v, n) IN (r.ok /\ r.cd = 0 /\ r.cs = 0) => Resolve(tab, r) = Plain(r.v)

(* C05, C06: years and months.                                                    *)
YearLaw == \A n \in YearSteps : YearLawAt(tab, v, n)
MonthLaw == \A n \in MonthSteps : MonthLawAt(tab, v, n)
MonthsCompose == \A a, b \in MonthSteps : MonthsComposeAt(tab, v, a, b)

(* C07: days, by crossing them off.                                               *)
RECURSIVE Later(_, _)
Later(date, n) == IF n = 0 THEN date ELSE Later(NextDate(date), n - 1)
DayLaw == \A n \in DaySteps : DayLawAt(tab, v, n)
DaysOneByOne == \A n \in ShortDaySteps :
   LET r == AddDays(tab, v, n)
   IN r.ok => /\ n >= 0 => DateIn(r.v) = Later(DateIn(v), n)
              /\ n < 0 => DateIn(v) = Later(DateIn(r.v), -n)
DayAfter == \A n \in DaySteps : NextDayAt(tab, v, n)
DaysCompose == \A a, b \in DaySteps : DaysComposeAt(tab, v, a, b)

(* C08: minutes and hours.                                                        *)
MinuteLaw == \A n \in MinuteSteps : MinuteLawAt(tab, v, n)
HourLaw == \A n \in HourSteps : HourLawAt(tab, v, n)

(* C12, C13, C14: a Unix clock cannot show an inserted second; every other        *)
(* moment's reading converts to exactly what the atomic clock counted.             *)
ClockAgrees == v.sod < SPD => InstantOf(tab, DayOf(v), v.sod) = Norm(e \div SPD, e % SPD)
ClockRuns == v.sod < SPD => ClockRunsAt(tab, DayOf(v), v.sod)

(* C24: two paths to the same fields give the same value, by definition of a      *)
(* value; what remains is that the fields determine it.                           *)
FieldsDetermine == FieldsDetermineAt(v) /\ v = [Stamp(v.y, v.m, v.d, v.sod) EXCEPT !.ns = v.ns, !.p = v.p]

------------------------------------------------------------------------------
(* One tick is one second; the ns and precision ride along.                      *)
TickIsSecond == [][AddSeconds(tab, v, 0, 1) = Plain(v')]_vars
=============================================================================
