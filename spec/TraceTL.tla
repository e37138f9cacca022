------------------------------- MODULE TraceTL -------------------------------
(* Recorded calls on instants and durations, compared with Timeline.tla over      *)
(* exact integers. Every line carries its operands: ticks as BigInts, the tick     *)
(* type by name, scales as BigInts (ticks per second).                              *)
EXTENDS Integers, Sequences, BigInt, Verdicts, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

Signed == [i8 |-> 7, i16 |-> 15, i32 |-> 31, i64 |-> 63, i128 |-> 127]
Unsigned == [u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, u128 |-> 128]
Types == DOMAIN Signed \cup DOMAIN Unsigned
HiTable == [t \in Types |-> Sub(Pow2(IF t \in DOMAIN Signed THEN Signed[t] ELSE Unsigned[t]), One)]
LoTable == [t \in Types |-> IF t \in DOMAIN Signed THEN Negate(Pow2(Signed[t])) ELSE Zero]
Lo(t) == LoTable[t]
Hi(t) == HiTable[t]
Bits(t) == IF t \in DOMAIN Signed THEN Signed[t] + 1 ELSE Unsigned[t]

TL == INSTANCE Timeline WITH Plus <- Add, Minus <- Sub, Times <- Mul, Leq <- Le,
                             Nil <- Zero, Unit <- One

VARIABLE l
vars == <<l, shown>>

Has(e, k) == k \in DOMAIN e

(* A recorded outcome r is <<"some", x>>, <<"none">> or <<"panic">>.                 *)
Same(x, r, name) == IF r = x THEN {}
                    ELSE IF r = <<"panic">> THEN {name, name \o "_panic"} ELSE {name}

(* k: the finer scale's ticks in one of the coarser's, from both ticks per second.   *)
IsFactor(e) == Mul(e.k, e.lo) = e.hi

Compared(o, r) ==
  LET yes(p) == IF p THEN 1 ELSE 0
  IN (IF 9 \in {r[i] : i \in 1..7} THEN {"cmp_panic"} ELSE {})
     \cup Report(r = <<yes(o = 0), yes(o # 0), yes(o < 0), yes(o <= 0), yes(o > 0), yes(o >= 0), o>>, "cmp")

Aspects(e) ==
  CASE e.e = "iadd" ->
         Same(TL!CheckedAdd(e.t, e.a, e.b), e.r, "checked_add")
         \cup Report(e.p = TL!InstantAdd(e.t, e.a, e.b), "add")
    [] e.e = "isub" -> Report(e.r = TL!InstantSub(e.t, e.a, e.b), "sub")
    [] e.e = "dadd" -> Report(TL!ExactIfFits(e.t, Add(e.a, e.b), e.r), "dadd")
    [] e.e = "dsub" -> Report(TL!ExactIfFits(e.t, Sub(e.a, e.b), e.r), "dsub")
    [] e.e = "dmul" -> Report(TL!ExactIfFits(e.t, Mul(e.a, e.b), e.r), "dmul")
    \* (i + d) - i, i + (j - i) and epoch + (i - epoch), as computed by the library
    [] e.e = "addsub" -> Report(e.r = (IF TL!Fits(e.t, Add(e.a, e.b)) THEN TL!Is(e.b) ELSE TL!Panic), "back")
    [] e.e = "subadd" -> Report(e.r = (IF TL!Fits(e.t, Sub(e.b, e.a)) THEN TL!Is(e.b) ELSE TL!Panic), "back")
    [] e.e = "since" -> Report(e.r = TL!Is(e.a), "back")
    [] e.e = "ends" -> Report(e.lo = Lo(e.t) /\ e.hi = Hi(e.t) /\ e.zero = Zero, "ends")
    [] e.e \in {"ifloor", "dfloor"} ->
         IF e.r[1] # "some" THEN {e.e}
         ELSE Report(IsFactor(e) /\ TL!IsFloor(e.r[2], e.a, e.k), e.e)
    [] e.e = "split" ->
         IF e.r[1] # "some" THEN {"split"}
         ELSE Report(IsFactor(e) /\ TL!IsSplit(e.r[2], e.r[3], e.a, e.k), "split")
    [] e.e \in {"iextend", "dextend"} ->
         Same(TL!Extended(e.t, e.a, e.k), e.r, e.e)
         \cup (IF Has(e, "f") THEN Report(e.r[1] = "some" => e.f = TL!Is(e.a), "extend_floor") ELSE {})
    [] e.e = "conv" -> Same(TL!Converted(e.t, e.a), e.r, "conv")
    [] e.e = "into" -> Report(e.r = TL!Is(e.a), "into")
    [] e.e = "widen" ->
         Report(e.r = TL!Is(e.a), "widen")
         \* t1 widened with t2 gives the wider of both
         \cup Report(Bits(e.t) = (IF Bits(e.t1) > Bits(e.t2) THEN Bits(e.t1) ELSE Bits(e.t2)), "widen")
    \* eq, lt, le, gt, ge as 0/1, c: partial_cmp (2: no answer), 9: panicked
    [] e.e = "cmp" -> Compared(TL!Order(e.a, e.s, e.b, e.z), e.r)
    \* durations, and instants of one type: o: cmp, lo, hi: the lesser and the greater,
    \* h: hashes of both durations, of both instants are the same
    [] e.e = "same" ->
         LET o == TL!Order(e.a, e.s, e.b, e.s)
         IN Compared(o, e.r)
            \cup Report(e.o = o, "cmp")
            \cup Report(e.lo = TL!Is(IF o <= 0 THEN e.a ELSE e.b) /\ e.hi = TL!Is(IF o <= 0 THEN e.b ELSE e.a), "min_max")
            \cup Report(o = 0 => e.h = <<1, 1>>, "hash")
    [] e.e = "qfloor" ->
         IF e.r[1] # "some" THEN {"qfloor"}
         ELSE Report(IsFactor(e) /\ TL!IsQuotFloor(e.r[2], e.r[3], e.a, e.b, e.k), "qfloor")
    [] e.e = "qceil" ->
         IF e.r[1] # "some" THEN {"qceil"}
         ELSE Report(IsFactor(e) /\ TL!IsQuotCeil(e.r[2], e.r[3], e.a, e.b, e.k), "qceil")

Note(S) == NoteAt(l, S)

Init == l = 1 /\ shown = <<>>
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ Note(Aspects(Log[l]))
        /\ EndAt(l, Log)
Spec == Init /\ [][Next]_vars
==============================================================================
