--------------------------- MODULE SharingProofs ---------------------------
(* Sharing.tla proved with TLAPS for any number of threads, any table and a clock    *)
(* that goes on for ever so long: every answer is the one a thread would get alone.  *)
EXTENDS Sharing, LeapProofs

ASSUME Given == /\ IsTable(Tab) /\ Days \in SUBSET Int /\ (\E d \in Days : TRUE)
                /\ LastTick \in Nat /\ OwnDate = TRUE

(* Where the last entry before the day wanted must be.                              *)
Between(D, a, b) == /\ a \in 0..Len(Tab) /\ b \in 0..Len(Tab) /\ a <= b
                    /\ \A i \in 1..Len(Tab) : i <= a => Tab[i][1] < D
                    /\ \A i \in 1..Len(Tab) : i > b => Tab[i][1] >= D
Right(t) == /\ pc[t] = "looking" => Between(want[t], lo[t], hi[t])
            /\ pc[t] = "found" => Between(want[t], answer[t], answer[t])
            /\ pc[t] = "shown" => date[t] = read[t]
            /\ pc[t] = "known" => ~counts[t]
Inv == TypeOK /\ \A t \in Threads : Right(t)

LEMMA Table == /\ Len(Tab) \in Int /\ Len(Tab) >= 1 /\ IsTable(Tab)
               /\ \A i \in 1..Len(Tab) : Tab[i][1] \in Int
               /\ \A i, j \in 1..Len(Tab) : i < j => Tab[i][1] < Tab[j][1]
  BY Given, EntryTypes, Increasing

LEMMA HalfWay == ASSUME NEW D \in Int, NEW a, NEW b, Between(D, a, b), a < b
                PROVE  LET m == (a + b + 1) \div 2
                       IN /\ m \in 1..Len(Tab)
                          /\ Tab[m][1] < D => Between(D, m, b)
                          /\ ~(Tab[m][1] < D) => Between(D, a, m - 1)
  <1> DEFINE m == (a + b + 1) \div 2
             l == Len(Tab)
  <1>1. a \in Int /\ b \in Int /\ 0 <= a /\ b <= l /\ l \in Int BY Table DEF Between
  <1>2. m \in Int /\ a < m /\ m <= b BY <1>1
  <1> HIDE DEF m
  <1>3. m \in 1..l BY <1>1, <1>2
  <1>4. Tab[m][1] < D => Between(D, m, b)
    <2> SUFFICES ASSUME Tab[m][1] < D PROVE Between(D, m, b) OBVIOUS
    <2>1. \A i \in 1..l : i <= m => Tab[i][1] < D
      <3> SUFFICES ASSUME NEW i \in 1..l, i <= m PROVE Tab[i][1] < D OBVIOUS
      <3>1. i = m \/ i < m BY <1>2
      <3>2. CASE i = m BY <3>2
      <3>3. CASE i < m
        <4>1. Tab[i][1] < Tab[m][1] /\ Tab[i][1] \in Int /\ Tab[m][1] \in Int BY <1>3, <3>3, Table
        <4> QED BY <4>1
      <3> QED BY <3>1, <3>2, <3>3
    <2>2. \A i \in 1..l : i > b => Tab[i][1] >= D BY DEF Between
    <2> QED BY <1>1, <1>2, <2>1, <2>2 DEF Between
  <1>5. ~(Tab[m][1] < D) => Between(D, a, m - 1)
    <2> SUFFICES ASSUME ~(Tab[m][1] < D) PROVE Between(D, a, m - 1) OBVIOUS
    <2>1. \A i \in 1..l : i > m - 1 => Tab[i][1] >= D
      <3> SUFFICES ASSUME NEW i \in 1..l, i > m - 1 PROVE Tab[i][1] >= D OBVIOUS
      <3>1. i = m \/ m < i BY <1>2
      <3>0. Tab[m][1] >= D BY <1>3, Table
      <3>2. CASE i = m BY <3>0, <3>2
      <3>3. CASE m < i
        <4>1. Tab[m][1] < Tab[i][1] /\ Tab[i][1] \in Int /\ Tab[m][1] \in Int BY <1>3, <3>3, Table
        <4> QED BY <3>0, <4>1
      <3> QED BY <3>1, <3>2, <3>3
    <2>2. \A i \in 1..l : i <= a => Tab[i][1] < D BY DEF Between
    <2> QED BY <1>1, <1>2, <2>1, <2>2 DEF Between
  <1>6. /\ m \in 1..Len(Tab)
        /\ Tab[m][1] < D => Between(D, m, b)
        /\ ~(Tab[m][1] < D) => Between(D, a, m - 1) BY <1>3, <1>4, <1>5
  <1> QED BY <1>6 DEF m

THEOREM Looked == ASSUME NEW D \in Int, NEW a, Between(D, a, a)
                  PROVE  (IF a = 0 THEN 0 ELSE Tab[a][3]) = Accumulated(Tab, D)
  <1> DEFINE l == Len(Tab)
  <1>1. a \in 0..l /\ l \in Int /\ l >= 1 BY Table DEF Between
  <1>2. \A i \in 1..l : (i <= a => Tab[i][1] < D) /\ (i > a => Tab[i][1] >= D) /\ Tab[i][1] \in Int BY Table DEF Between
  <1>3. \/ (\A i \in 1..l : Tab[i][1] >= D) /\ Accumulated(Tab, D) = 0
        \/ \E i \in 1..l : Tab[i][1] < D /\ (\A j \in 1..l : j > i => Tab[j][1] >= D) /\ Accumulated(Tab, D) = Tab[i][3]
    BY Table, AccumulatedIs
  <1>4. CASE a = 0
    <2>1. \A i \in 1..l : ~(Tab[i][1] < D) BY <1>1, <1>2, <1>4
    <2> QED BY <1>3, <1>4, <2>1
  <1>5. CASE a # 0
    <2>1. a \in 1..l /\ Tab[a][1] < D /\ ~(Tab[a][1] >= D) BY <1>1, <1>2, <1>5
    <2>2. PICK i \in 1..l : Tab[i][1] < D /\ (\A j \in 1..l : j > i => Tab[j][1] >= D) /\ Accumulated(Tab, D) = Tab[i][3] BY <1>3, <2>1
    <2>3. ~(a > i) BY <2>1, <2>2
    <2>4. ~(i > a) BY <1>2, <2>2
    <2>5. i = a BY <2>1, <2>3, <2>4
    <2> QED BY <1>5, <2>2, <2>5
  <1> QED BY <1>4, <1>5

THEOREM HoldsThen == ASSUME Inv PROVE TypeOK /\ LooksRight /\ KnowsClock
  <1>1. TypeOK /\ KnowsClock BY DEF Inv, KnowsClock, Right
  <1>2. \A t \in Threads : pc[t] = "found" => (IF answer[t] = 0 THEN 0 ELSE Tab[answer[t]][3]) = Accumulated(Tab, want[t])
    <2> SUFFICES ASSUME NEW t \in Threads, pc[t] = "found" PROVE (IF answer[t] = 0 THEN 0 ELSE Tab[answer[t]][3]) = Accumulated(Tab, want[t]) OBVIOUS
    <2>1. want[t] \in Int BY Given DEF Inv, TypeOK
    <2>2. Between(want[t], answer[t], answer[t]) BY DEF Inv, Right
    <2> QED BY <2>1, <2>2, Looked
  <1> QED BY <1>1, <1>2 DEF LooksRight

LEMMA Start == ASSUME Init PROVE Inv
  <1>1. (CHOOSE d \in Days : TRUE) \in Days BY Given
  <1>2. Len(Tab) \in Int /\ Len(Tab) >= 1 BY Table
  <1>3. TypeOK BY <1>1, <1>2, Given DEF Init, TypeOK
  <1>4. \A t \in Threads : pc[t] = "idle" BY DEF Init
  <1> QED BY <1>3, <1>4 DEF Inv, Right

(* What a step of one thread leaves alone.                                          *)
LEMMA Others == ASSUME NEW t \in Threads, NEW u \in Threads, u # t, Right(u),
                       pc'[u] = pc[u], want'[u] = want[u], lo'[u] = lo[u], hi'[u] = hi[u], answer'[u] = answer[u],
                       read'[u] = read[u], date'[u] = date[u], counts'[u] = counts[u]
                PROVE  Right(u)'
  BY DEF Right, Between

LEMMA AskStep == ASSUME Inv, NEW t \in Threads, NEW d \in Days, Ask(t, d) PROVE Inv'
  <1>0. Len(Tab) \in Int /\ Len(Tab) >= 1 BY Table
  <1>1. TypeOK' BY <1>0 DEF Inv, TypeOK, Ask
  <1>2. Right(t)'
    <2>1. pc'[t] = "looking" /\ want'[t] = d /\ lo'[t] = 0 /\ hi'[t] = Len(Tab) BY DEF Inv, TypeOK, Ask
    <2>2. Between(d, 0, Len(Tab)) BY <1>0 DEF Between
    <2>3. Between(want'[t], lo'[t], hi'[t]) BY <2>1, <2>2
    <2> QED BY <2>1, <2>3 DEF Right, Between
  <1>3. ASSUME NEW u \in Threads, u # t PROVE Right(u)'
    <2>1. Right(u) BY DEF Inv
    <2> QED BY <1>3, <2>1, Others DEF Inv, TypeOK, Ask
  <1> QED BY <1>1, <1>2, <1>3 DEF Inv

LEMMA ProbeStep == ASSUME Inv, NEW t \in Threads, Probe(t) PROVE Inv'
  <1> DEFINE m == (lo[t] + hi[t] + 1) \div 2
  <1>0. Len(Tab) \in Int /\ want[t] \in Int /\ lo[t] < hi[t] /\ pc[t] = "looking" /\ Right(t) BY Table, Given DEF Inv, TypeOK, Probe
  <1>1. Between(want[t], lo[t], hi[t]) BY <1>0 DEF Right
  <1>2. /\ m \in 1..Len(Tab)
        /\ Tab[m][1] < want[t] => Between(want[t], m, hi[t])
        /\ ~(Tab[m][1] < want[t]) => Between(want[t], lo[t], m - 1)
    <2> DEFINE D == want[t]
               a == lo[t]
               b == hi[t]
    <2>1. D \in Int /\ Between(D, a, b) /\ a < b BY <1>0, <1>1
    <2> HIDE DEF D, a, b
    <2>2. LET x == (a + b + 1) \div 2
          IN /\ x \in 1..Len(Tab)
             /\ Tab[x][1] < D => Between(D, x, b)
             /\ ~(Tab[x][1] < D) => Between(D, a, x - 1) BY <2>1, HalfWay
    <2> QED BY <2>2 DEF D, a, b
  <1>3. /\ Tab[m][1] < want[t] => lo' = [lo EXCEPT ![t] = m] /\ hi' = hi
        /\ ~(Tab[m][1] < want[t]) => hi' = [hi EXCEPT ![t] = m - 1] /\ lo' = lo
        /\ UNCHANGED <<pc, want, answer, clock, read, date, counts>> BY DEF Probe
  <1> HIDE DEF m
  <1>4. TypeOK'
    <2>1. m \in 0..Len(Tab) /\ m - 1 \in 0..Len(Tab) BY <1>0, <1>2
    <2>2. lo' \in [Threads -> 0..Len(Tab)] /\ hi' \in [Threads -> 0..Len(Tab)] BY <1>3, <2>1 DEF Inv, TypeOK
    <2> QED BY <1>3, <2>2 DEF Inv, TypeOK
  <1>5. Right(t)'
    <2>1. Between(want'[t], lo'[t], hi'[t]) BY <1>2, <1>3 DEF Inv, TypeOK
    <2>2. pc'[t] = "looking" BY <1>0, <1>3
    <2> QED BY <2>1, <2>2 DEF Right, Between
  <1>6. ASSUME NEW u \in Threads, u # t PROVE Right(u)'
    <2>1. Right(u) BY DEF Inv
    <2>2. lo'[u] = lo[u] /\ hi'[u] = hi[u] BY <1>3, <1>6 DEF Inv, TypeOK
    <2> QED BY <1>3, <1>6, <2>1, <2>2, Others
  <1> QED BY <1>4, <1>5, <1>6 DEF Inv

LEMMA FindStep == ASSUME Inv, NEW t \in Threads, Find(t) PROVE Inv'
  <1>1. TypeOK' BY DEF Inv, TypeOK, Find
  <1>2. Right(t)'
    <2>1. Between(want[t], lo[t], hi[t]) /\ lo[t] = hi[t] BY DEF Inv, Right, Find
    <2>2. pc'[t] = "found" /\ answer'[t] = lo[t] /\ want'[t] = want[t] BY DEF Inv, TypeOK, Find
    <2>3. Between(want'[t], answer'[t], answer'[t]) BY <2>1, <2>2
    <2> QED BY <2>2, <2>3 DEF Right, Between
  <1>3. ASSUME NEW u \in Threads, u # t PROVE Right(u)'
    <2>1. Right(u) BY DEF Inv
    <2> QED BY <1>3, <2>1, Others DEF Inv, TypeOK, Find
  <1> QED BY <1>1, <1>2, <1>3 DEF Inv

LEMMA ReadStep == ASSUME Inv, NEW t \in Threads, Read(t) PROVE Inv'
  <1>1. TypeOK' BY DEF Inv, TypeOK, Read
  <1>2. Right(t)'
    <2>1. pc'[t] = "read" BY DEF Inv, TypeOK, Read
    <2> QED BY <2>1 DEF Right
  <1>3. ASSUME NEW u \in Threads, u # t PROVE Right(u)'
    <2>1. Right(u) BY DEF Inv
    <2> QED BY <1>3, <2>1, Others DEF Inv, TypeOK, Read
  <1> QED BY <1>1, <1>2, <1>3 DEF Inv

LEMMA ShowStep == ASSUME Inv, NEW t \in Threads, Show(t) PROVE Inv'
  <1>0. Slot(t) = t BY Given DEF Slot
  <1>1. TypeOK' BY <1>0 DEF Inv, TypeOK, Show
  <1>2. Right(t)'
    <2>1. pc'[t] = "shown" /\ date'[t] = read[t] /\ read'[t] = read[t] BY <1>0 DEF Inv, TypeOK, Show
    <2> QED BY <2>1 DEF Right
  <1>3. ASSUME NEW u \in Threads, u # t PROVE Right(u)'
    <2>1. Right(u) BY DEF Inv
    <2> QED BY <1>0, <1>3, <2>1, Others DEF Inv, TypeOK, Show
  <1> QED BY <1>1, <1>2, <1>3 DEF Inv

LEMMA CompareStep == ASSUME Inv, NEW t \in Threads, Compare(t) PROVE Inv'
  <1>0. Slot(t) = t BY Given DEF Slot
  <1>1. TypeOK' BY <1>0 DEF Inv, TypeOK, Compare
  <1>2. Right(t)'
    <2>1. date[t] = read[t] BY DEF Inv, Right, Compare
    <2>2. pc'[t] = "known" /\ counts'[t] = FALSE BY <1>0, <2>1 DEF Inv, TypeOK, Compare
    <2> QED BY <2>2 DEF Right
  <1>3. ASSUME NEW u \in Threads, u # t PROVE Right(u)'
    <2>1. Right(u) BY DEF Inv
    <2> QED BY <1>3, <2>1, Others DEF Inv, TypeOK, Compare
  <1> QED BY <1>1, <1>2, <1>3 DEF Inv

LEMMA Same == ASSUME Inv, UNCHANGED <<pc, want, lo, hi, answer, read, date, counts>>, clock' \in 0..LastTick PROVE Inv'
  BY DEF Inv, TypeOK, Right, Between

THEOREM Step == ASSUME Inv, [Next]_vars PROVE Inv'
  <1>1. CASE UNCHANGED vars
    <2>1. clock' = clock /\ clock \in 0..LastTick BY <1>1 DEF vars, Inv, TypeOK
    <2> QED BY <1>1, <2>1, Same DEF vars
  <1>2. CASE Tick
    <2>1. clock' \in 0..LastTick BY <1>2, Given DEF Tick, Inv, TypeOK
    <2> QED BY <1>2, <2>1, Same DEF Tick
  <1>3. CASE \E t \in Threads : (\E d \in Days : Ask(t, d)) \/ Probe(t) \/ Find(t) \/ Read(t) \/ Show(t) \/ Compare(t)
    BY <1>3, AskStep, ProbeStep, FindStep, ReadStep, ShowStep, CompareStep
  <1> QED BY <1>1, <1>2, <1>3 DEF Next

THEOREM AsAlone == Spec => [](TypeOK /\ LooksRight /\ KnowsClock)
  <1>1. Init => Inv BY Start
  <1>2. Inv /\ [Next]_vars => Inv' BY Step
  <1>3. Inv => TypeOK /\ LooksRight /\ KnowsClock BY HoldsThen
  <1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec

(* One thread's step touches nothing of another's.                                  *)
LEMMA Apart == ASSUME Inv, NEW t \in Threads, NEW u \in Threads, u # t,
                      (\E d \in Days : Ask(t, d)) \/ Probe(t) \/ Find(t) \/ Read(t) \/ Show(t) \/ Compare(t)
               PROVE  pc'[u] = pc[u] /\ lo'[u] = lo[u] /\ hi'[u] = hi[u] /\ answer'[u] = answer[u]
                      /\ read'[u] = read[u] /\ counts'[u] = counts[u] /\ date'[u] = date[u]
  <1>0. Slot(t) = t BY Given DEF Slot
  <1>1. CASE \E d \in Days : Ask(t, d) BY <1>1 DEF Ask, Inv, TypeOK
  <1>2. CASE Probe(t) BY <1>2 DEF Probe, Inv, TypeOK
  <1>3. CASE Find(t) BY <1>3 DEF Find, Inv, TypeOK
  <1>4. CASE Read(t) BY <1>4 DEF Read, Inv, TypeOK
  <1>5. CASE Show(t) BY <1>0, <1>5 DEF Show, Inv, TypeOK
  <1>6. CASE Compare(t) BY <1>6 DEF Compare, Inv, TypeOK
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6

THEOREM NoneDisturbed == Spec => Undisturbed
  <1> DEFINE Left(u) == /\ pc'[u] = pc[u] /\ lo'[u] = lo[u] /\ hi'[u] = hi[u] /\ answer'[u] = answer[u]
                        /\ read'[u] = read[u] /\ counts'[u] = counts[u]
                        /\ OwnDate => date'[u] = date[u]
             Fine == \A t \in Threads : pc'[t] # pc[t] => \A u \in Threads \ {t} : Left(u)
  <1>1. ASSUME Inv, Next PROVE Fine
    <2>1. CASE Tick
      <3>1. \A t \in Threads : pc'[t] = pc[t] BY <2>1 DEF Tick
      <3> QED BY <3>1
    <2>2. CASE \E s \in Threads : (\E d \in Days : Ask(s, d)) \/ Probe(s) \/ Find(s) \/ Read(s) \/ Show(s) \/ Compare(s)
      <3>1. PICK s \in Threads : (\E d \in Days : Ask(s, d)) \/ Probe(s) \/ Find(s) \/ Read(s) \/ Show(s) \/ Compare(s) BY <2>2
      <3>2. \A u \in Threads : u # s => Left(u) BY <1>1, <3>1, Apart
      <3> HIDE DEF Left
      <3>3. ASSUME NEW t \in Threads, pc'[t] # pc[t] PROVE \A u \in Threads \ {t} : Left(u)
        <4>1. t = s BY <3>2, <3>3 DEF Left
        <4> QED BY <3>2, <4>1
      <3> QED BY <3>3
    <2> QED BY <1>1, <2>1, <2>2 DEF Next
  <1>2. Inv /\ [Next]_vars => [Fine]_vars
    <2> HIDE DEF Fine
    <2> QED BY <1>1
  <1>3. Init => Inv BY Start
  <1>4. Inv /\ [Next]_vars => Inv' BY Step
  <1> QED BY <1>2, <1>3, <1>4, PTL DEF Spec, Undisturbed
=============================================================================
