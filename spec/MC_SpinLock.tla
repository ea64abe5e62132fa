----------------------------- MODULE MC_SpinLock -----------------------------
(* The ticket algorithm, with counters that wrap around, refines the queue.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Mod, Rounds
VARIABLES holder, queue, data, next, active, tk, pc, n, reg
S == INSTANCE SpinLock
vars == <<holder, queue, data, next, active, tk, pc, n, reg>>
Init == /\ S!Init /\ next = 0 /\ active = 0 /\ tk = [t \in Threads |-> 0]
        /\ pc = [t \in Threads |-> "out"] /\ n = [t \in Threads |-> 0]
        /\ reg = [t \in Threads |-> 0]
Take(t) == /\ pc[t] = "out" /\ n[t] < Rounds
           /\ tk' = [tk EXCEPT ![t] = next] /\ next' = (next + 1) % Mod
           /\ pc' = [pc EXCEPT ![t] = "spin"] /\ S!Arrive(t)
           /\ UNCHANGED <<active, n, reg>>
Enter(t) == /\ pc[t] = "spin" /\ tk[t] = active
            /\ pc' = [pc EXCEPT ![t] = "cs"] /\ S!Acquire(t)
            /\ UNCHANGED <<next, active, tk, n, reg>>
Crit(t) == /\ pc[t] = "cs" /\ S!Update(t, data) /\ pc' = [pc EXCEPT ![t] = "rd"]
           /\ UNCHANGED <<next, active, tk, n, reg>>
Read(t) == /\ pc[t] = "rd" /\ reg' = [reg EXCEPT ![t] = active] /\ pc' = [pc EXCEPT ![t] = "wr"]
           /\ UNCHANGED <<holder, queue, data, next, active, tk, n>>
Write(t) == /\ pc[t] = "wr" /\ active' = (reg[t] + 1) % Mod /\ pc' = [pc EXCEPT ![t] = "out"]
            /\ n' = [n EXCEPT ![t] = @ + 1] /\ S!Release(t)
            /\ UNCHANGED <<next, tk, reg>>
Step(t) == Take(t) \/ Enter(t) \/ Crit(t) \/ Read(t) \/ Write(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Mutex == Cardinality({t \in Threads : pc[t] \in {"cs", "rd", "wr"}}) <= 1
\* The ticket says enter exactly when the queue does.
Served == \A t \in Threads : pc[t] = "spin" =>
            ((tk[t] = active) <=> (holder = 0 /\ queue # << >> /\ Head(queue) = t))
EachEnters == \A t \in Threads : pc[t] = "spin" ~> pc[t] = "cs"
=============================================================================
