--------------------------- MODULE MCTimelineWorld ---------------------------
EXTENDS TimelineWorld
(* Tick types of two to five bits.                                              *)
TypesDef == {"i3", "i4", "u3", "u4"}
BigTypesDef == {"i3", "i4", "u3", "u4", "i6", "u5"}
LowDef(t) == CASE t = "i3" -> -4 [] t = "i4" -> -8 [] t = "i6" -> -32 [] OTHER -> 0
HighDef(t) == CASE t = "i3" -> 3 [] t = "i4" -> 7 [] t = "i6" -> 31
                [] t = "u3" -> 7 [] t = "u4" -> 15 [] t = "u5" -> 31
ScalesDef == {1, 2, 6}
=============================================================================
