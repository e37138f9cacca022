------------------------------ MODULE MCBuilder ------------------------------
EXTENDS Builder, LeapTables
(* Days 1971-12-31 and 1972-02-29 are longer, 1972-12-31 is shorter.              *)
TabDef == TableOf(<< <<729, 1>>, <<789, 1>>, <<1095, -1>> >>)
FieldValuesDef(i) ==
  CASE i = 1 -> {1971, 1972, 1973}
    [] i = 2 -> {0, 1, 2, 12, 13}
    [] i = 3 -> {0, 1, 28, 29, 31, 32}
    [] i = 4 -> 0..HPD
    [] i = 5 -> 0..MPH
    [] i = 6 -> 0..(SPM + 1)
    [] i = 7 -> {0, 1000}
    [] i = 8 -> {999}
    [] i = 9 -> {7, 1000}
==============================================================================
