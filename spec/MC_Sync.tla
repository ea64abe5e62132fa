------------------------------- MODULE MC_Sync -------------------------------
(* The monitor algorithm behind latch and wait flag: a counter under a mutex, *)
(* sleepers on a condition variable, everybody woken by the step that reaches *)
(* zero (a wait flag is a latch of one that may be signalled again).  Timed   *)
(* waiters wake up by themselves, too, and go back to sleep.                  *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Counters, Both, Waiters, Timed   \* threads by what they do
VARIABLES lat, rdy, stp, th, mux, asleep, pc, cnt
S == INSTANCE Sync
vars == <<lat, rdy, stp, th, mux, asleep, pc, cnt>>
T == Counters \cup Both \cup Waiters
Count == Cardinality(Counters \cup Both)
Init == /\ lat = (1 :> Count) /\ rdy = << >> /\ stp = << >> /\ th = << >>
        /\ mux = 0 /\ asleep = {} /\ cnt = Count
        /\ pc = [t \in T |-> "start"]
Sleeps(t) == t \in Both \cup Waiters
Lock(t) == /\ pc[t] = "start" /\ mux = 0 /\ mux' = t /\ pc' = [pc EXCEPT ![t] = "in"]
           /\ UNCHANGED <<lat, rdy, stp, th, asleep, cnt>>
\* Decrement (and wake everybody at zero), then either leave or test.
Dec(t) == /\ pc[t] = "in" /\ mux = t /\ t \in Counters \cup Both
          /\ cnt' = cnt - 1 /\ S!Down(1)
          /\ asleep' = IF cnt' = 0 THEN {} ELSE asleep
          /\ IF t \in Both THEN pc' = [pc EXCEPT ![t] = "test"] /\ UNCHANGED mux
                           ELSE pc' = [pc EXCEPT ![t] = "out"] /\ mux' = 0
Enter(t) == /\ pc[t] = "in" /\ mux = t /\ t \in Waiters
            /\ pc' = [pc EXCEPT ![t] = "test"]
            /\ UNCHANGED <<lat, rdy, stp, th, mux, asleep, cnt>>
TestC(t) == /\ pc[t] = "test" /\ mux = t /\ mux' = 0
            /\ IF cnt = 0 THEN pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED asleep
                          ELSE pc' = [pc EXCEPT ![t] = "sleep"] /\ asleep' = asleep \cup {t}
            /\ UNCHANGED <<lat, rdy, stp, th, cnt>>
Wake(t) == /\ pc[t] = "sleep" /\ t \notin asleep /\ mux = 0
           /\ mux' = t /\ pc' = [pc EXCEPT ![t] = "test"]
           /\ UNCHANGED <<lat, rdy, stp, th, asleep, cnt>>
Spur(t) == /\ t \in asleep /\ asleep' = asleep \ {t}
           /\ UNCHANGED <<lat, rdy, stp, th, mux, pc, cnt>>
Step(t) == Lock(t) \/ Dec(t) \/ Enter(t) \/ TestC(t) \/ Wake(t)
Next == \E t \in T : Step(t) \/ Spur(t)
Spec == /\ Init /\ [][Next]_vars
        /\ \A t \in T : WF_vars(Step(t)) /\ SF_vars(Lock(t)) /\ SF_vars(Wake(t))
Agree == cnt = lat[1]
NotEarly == \A t \in T : (pc[t] = "out" /\ Sleeps(t)) => S!Open(1)
AllReleased == <>(\A t \in T : pc[t] = "out")
=============================================================================
