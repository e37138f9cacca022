------------------------------ MODULE Builder ------------------------------
(* A builder remembers the last value given for each field and nothing else.     *)
(* Fields 1..9 are year, month, day, hour, minute, second, millisecond,           *)
(* microsecond, nanosecond; -1 stands for a field not supplied.                    *)
EXTENDS DateTimes, TLC

CONSTANTS Tab,
          FieldValues(_)    \* values tried for each field

VARIABLES f,      \* field -> last value given, or -1
          out     \* outcomes allowed for the build just done, or {}

bvars == <<f, out>>

Supplied(i) == f[i] # Unset
Finest == FinestOf(f)

Set(i, x) == f' = [f EXCEPT ![i] = x] /\ out' = {}
Build == BuildableFields(f) /\ out' = BuildOutcomes(Tab, Filled(f)) /\ UNCHANGED f

Init == f = [i \in 1..9 |-> Unset] /\ out = {}
Next == (\E i \in 1..9 : \E x \in FieldValues(i) : Set(i, x)) \/ Build
Spec == Init /\ [][Next]_bvars

------------------------------------------------------------------------------
Value == Built(Filled(f))

(* C01: exactly the moments that exist can be built.                               *)
BuildsWhatExists ==
  out # {} => (("ok" \in out) <=>
     /\ f[1] <= MaxYear
     /\ Supplied(4) => f[4] < HPD
     /\ Supplied(5) => f[5] < MPH
     /\ \A i \in 7..9 : f[i] < 1000
     /\ f[2] \in 1..12 \cup {Unset}
     /\ Supplied(5) => MinuteOfDay(Value) = MPH * f[4] + f[5]
     /\ Exists(Tab, Value))
OneVerdict == "ok" \in out => out = {"ok"}
YearTooLate == out = {"oob"} => f[1] > MaxYear
(* C02: and they read back.                                                         *)
ReadsBack ==
  "ok" \in out =>
     LET v == Value
         g == Filled(f)
     IN /\ <<v.y, v.m, v.d, HourOf(v), MinuteOf(v), SecondOf(v)>> = <<g.y, g.m, g.d, g.h, g.mi, g.s>>
        /\ v.ns \in 0..999999999
        /\ <<v.ns \div 1000000, (v.ns \div 1000) % 1000, v.ns % 1000>> = <<g.ms, g.us, g.n>>
        /\ v.p = Finest - 1
(* C03: finer fields are at the start of their period.                              *)
StartOfPeriod ==
  "ok" \in out => LET v == Value
                  IN /\ Finest < 2 => v.m = 1
                     /\ Finest < 3 => v.d = 1
                     /\ Finest < 4 => v.sod = 0
                     /\ Finest < 7 => v.ns = 0
(* C03: building is a pure reading of the builder.                                  *)
BuildKeeps == [][out' # {} => f' = f]_bvars
=============================================================================
