--------------------------- MODULE MCMomentWorld ---------------------------
(* Small worlds for MomentWorld: with 1969-1972 being MinYear..MaxYear, day 0  *)
(* is 1970-01-01, 58 is 28 February 1970, 789 is 29 February 1972, 1095 is     *)
(* 31 December 1972 (the last day).                                             *)
EXTENDS MomentWorld

NoEntries == <<>>
Positive == TableOf(<< <<0, 1>>, <<58, 1>>, <<364, 1>>, <<789, 1>> >>)
Adjacent == TableOf(<< <<30, 1>>, <<31, 1>>, <<32, 1>>, <<58, 1>>, <<59, 1>> >>)
Mixed == TableOf(<< <<0, 1>>, <<31, -1>>, <<364, 1>>, <<365, -1>>, <<789, 1>>, <<790, -1>> >>)
Last == TableOf(<< <<364, 1>>, <<729, 1>>, <<1095, 1>> >>)
Dips == TableOf(<< <<30, 1>>, <<58, 1>>, <<424, -1>>, <<789, -1>>, <<910, 1>> >>)

Removed == TableOf(<< <<0, -1>>, <<58, -1>>, <<364, 1>>, <<789, -1>> >>)

AllTables == {NoEntries, Positive, Adjacent, Mixed, Last, Dips, Removed}
QuickTables == {Positive, Mixed, Removed}
ASSUME \A t \in AllTables \ {NoEntries} : WellFormed(t)
=============================================================================
