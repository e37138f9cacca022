------------------------------ MODULE MCSharing ------------------------------
EXTENDS Sharing, LeapTables
TabDef == TableOf(<< <<0, 1>>, <<1, 1>>, <<3, -1>>, <<4, 1>>, <<6, 1>> >>)
==============================================================================
