------------------------------- MODULE Sharing -------------------------------
(* Threads that ask for the leap seconds before a day, in a table they share, and  *)
(* that find out what kind of clock the system has while the clock goes on. What    *)
(* looks like one call is many steps, in between which the other threads move.      *)
(* Each answer must be the one the thread would have got alone.                      *)
EXTENDS LeapSeconds, Integers, Sequences

CONSTANTS Threads,
          Tab,        \* the table shared
          Days,       \* days asked for
          LastTick,   \* the clock goes from 0 to this
          OwnDate     \* TRUE: every thread has the broken-down date it compares to itself;
                      \* FALSE: they share one (as with C's gmtime)

VARIABLES pc,      \* what each thread is at
          want,    \* the day it asks for
          lo, hi,  \* where it still looks
          answer,  \* what it found, 0..Len(Tab): the last entry before the day
          clock,   \* the system's clock, in seconds of which it leaves none out
          read,    \* what a thread read off it
          date,    \* broken-down date and time, of the thread's own or shared; here the second as such
          counts   \* what the thread takes the clock for: does it count leap seconds?

vars == <<pc, want, lo, hi, answer, clock, read, date, counts>>

Slot(t) == IF OwnDate THEN t ELSE CHOOSE x \in Threads : TRUE

TypeOK ==
  /\ pc \in [Threads -> {"idle", "looking", "found", "read", "shown", "known"}]
  /\ want \in [Threads -> Days]
  /\ lo \in [Threads -> 0..Len(Tab)] /\ hi \in [Threads -> 0..Len(Tab)]
  /\ answer \in [Threads -> 0..Len(Tab)]
  /\ clock \in 0..LastTick /\ read \in [Threads -> 0..LastTick] /\ date \in [Threads -> 0..LastTick]
  /\ counts \in [Threads -> BOOLEAN]

Init ==
  /\ pc = [t \in Threads |-> "idle"]
  /\ want = [t \in Threads |-> CHOOSE d \in Days : TRUE]
  /\ lo = [t \in Threads |-> 0] /\ hi = [t \in Threads |-> 0] /\ answer = [t \in Threads |-> 0]
  /\ clock = 0 /\ read = [t \in Threads |-> 0] /\ date = [t \in Threads |-> 0]
  /\ counts = [t \in Threads |-> FALSE]

\* Lookup, one probe at a time.
Ask(t, d) ==
  /\ pc[t] \in {"idle", "known"}
  /\ pc' = [pc EXCEPT ![t] = "looking"] /\ want' = [want EXCEPT ![t] = d]
  /\ lo' = [lo EXCEPT ![t] = 0] /\ hi' = [hi EXCEPT ![t] = Len(Tab)]
  /\ UNCHANGED <<answer, clock, read, date, counts>>
Probe(t) ==
  /\ pc[t] = "looking" /\ lo[t] < hi[t]
  /\ LET mid == (lo[t] + hi[t] + 1) \div 2
     IN IF Tab[mid][1] < want[t] THEN lo' = [lo EXCEPT ![t] = mid] /\ UNCHANGED hi
        ELSE hi' = [hi EXCEPT ![t] = mid - 1] /\ UNCHANGED lo
  /\ UNCHANGED <<pc, want, answer, clock, read, date, counts>>
Find(t) ==
  /\ pc[t] = "looking" /\ lo[t] = hi[t]
  /\ pc' = [pc EXCEPT ![t] = "found"] /\ answer' = [answer EXCEPT ![t] = lo[t]]
  /\ UNCHANGED <<want, lo, hi, clock, read, date, counts>>

\* Finding out what kind of clock there is: read it, have it broken down, compare.
Read(t) ==
  /\ pc[t] \in {"idle", "found"}
  /\ pc' = [pc EXCEPT ![t] = "read"] /\ read' = [read EXCEPT ![t] = clock]
  /\ UNCHANGED <<want, lo, hi, answer, clock, date, counts>>
Show(t) ==
  /\ pc[t] = "read"
  /\ pc' = [pc EXCEPT ![t] = "shown"] /\ date' = [date EXCEPT ![Slot(t)] = read[t]]
  /\ UNCHANGED <<want, lo, hi, answer, clock, read, counts>>
Compare(t) ==
  /\ pc[t] = "shown"
  /\ pc' = [pc EXCEPT ![t] = "known"] /\ counts' = [counts EXCEPT ![t] = date[Slot(t)] # read[t]]
  /\ UNCHANGED <<want, lo, hi, answer, clock, read, date>>

Tick == /\ clock < LastTick /\ clock' = clock + 1
        /\ UNCHANGED <<pc, want, lo, hi, answer, read, date, counts>>

Next == Tick \/ \E t \in Threads : (\E d \in Days : Ask(t, d)) \/ Probe(t) \/ Find(t) \/ Read(t) \/ Show(t) \/ Compare(t)
Spec == Init /\ [][Next]_vars

\* What every thread would have got alone.
LooksRight == \A t \in Threads : pc[t] = "found" => (IF answer[t] = 0 THEN 0 ELSE Tab[answer[t]][3]) = Accumulated(Tab, want[t])
KnowsClock == \A t \in Threads : pc[t] = "known" => ~counts[t]
\* One thread's steps touch nothing of another's.
Undisturbed == [][\A t \in Threads : pc'[t] # pc[t] =>
                    \A u \in Threads \ {t} : /\ pc'[u] = pc[u] /\ lo'[u] = lo[u] /\ hi'[u] = hi[u] /\ answer'[u] = answer[u]
                                             /\ read'[u] = read[u] /\ counts'[u] = counts[u]
                                             /\ OwnDate => date'[u] = date[u]]_vars
==============================================================================
