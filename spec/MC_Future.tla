------------------------------ MODULE MC_Future ------------------------------
(* The algorithm of one shared state: a mutex, a condition variable and a slot *)
(* for a continuation; one thread completes (or abandons), some wait, one      *)
(* attaches a continuation.  Refines Future.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Waiters, WakeAll
VARIABLES sh, pr, fu, co, nx, mux, isSet, slot, asleep, pc, runs
A == INSTANCE Future
vars == <<sh, pr, fu, co, nx, mux, isSet, slot, asleep, pc, runs>>
S == 1  T == 2                \* completing and attaching thread
Threads == {S, T} \cup Waiters
Init == /\ sh = (1 :> A!No) /\ pr = (1 :> [m |-> 1, f |-> 0])
        /\ fu = (1 :> 1) /\ co = << >> /\ nx = 2
        /\ mux = 0 /\ isSet = FALSE /\ slot = "none" /\ asleep = {} /\ runs = 0
        /\ pc = [t \in Threads |-> "start"]
To(t, s) == pc' = [pc EXCEPT ![t] = s]
Lock(t) == pc[t] = "start" /\ mux = 0 /\ mux' = t /\ To(t, "in")
           /\ UNCHANGED <<sh, pr, fu, co, nx, isSet, slot, asleep, runs>>
\* Set under the mutex, wake up, pick up a continuation left behind.
Set == /\ pc[S] = "in" /\ isSet' = TRUE /\ mux' = 0
       /\ A!SetOutcome(1, <<"val", 7>>)
       /\ \/ (WakeAll /\ asleep' = {})
          \/ ~WakeAll /\ ((asleep = {} /\ asleep' = {}) \/ \E w \in asleep : asleep' = asleep \ {w})
       /\ slot' = "none" /\ To(S, IF slot = "c" THEN "run" ELSE "out") /\ UNCHANGED runs
\* Attach under the mutex: leave it behind, or find the outcome and run it.
Attach == /\ pc[T] = "in" /\ mux' = 0
          /\ A!Then(1, 2, 1)
          /\ IF isSet THEN To(T, "run") /\ UNCHANGED slot ELSE To(T, "out") /\ slot' = "c"
          /\ UNCHANGED <<isSet, asleep, runs>>
RunC(t) == /\ pc[t] = "run" /\ A!Run(1, <<"val", 7>>) /\ runs' = runs + 1 /\ To(t, "ran")
           /\ UNCHANGED <<mux, isSet, slot, asleep>>
Ran(t) == /\ pc[t] = "ran" /\ A!RanOutcome(1, <<"val", 8>>) /\ To(t, "res")
          /\ UNCHANGED <<mux, isSet, slot, asleep, runs>>
Res(t) == /\ pc[t] = "res" /\ A!Resolve(1) /\ To(t, "out")
          /\ UNCHANGED <<mux, isSet, slot, asleep, runs>>
TestW(t) == /\ pc[t] = "in" /\ t \in Waiters /\ mux' = 0
            /\ IF isSet THEN To(t, "out") /\ UNCHANGED asleep
                        ELSE To(t, "sleep") /\ asleep' = asleep \cup {t}
            /\ UNCHANGED <<sh, pr, fu, co, nx, isSet, slot, runs>>
Wake(t) == /\ pc[t] = "sleep" /\ t \notin asleep /\ mux = 0 /\ mux' = t /\ To(t, "in")
           /\ UNCHANGED <<sh, pr, fu, co, nx, isSet, slot, asleep, runs>>
Spur(t) == t \in asleep /\ asleep' = asleep \ {t}
           /\ UNCHANGED <<sh, pr, fu, co, nx, mux, isSet, slot, pc, runs>>
Step(t) == \/ Lock(t) \/ (t = S /\ Set) \/ (t = T /\ Attach)
           \/ (t \in {S, T} /\ (RunC(t) \/ Ran(t) \/ Res(t)))
           \/ (t \in Waiters /\ (TestW(t) \/ Wake(t)))
Next == \E t \in Threads : Step(t) \/ Spur(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ SF_vars(Lock(t)) /\ SF_vars(Wake(t))
Agree == isSet <=> A!IsSet(1)
NotEarly == \A w \in Waiters : pc[w] = "out" => isSet
AtMostOnce == runs <= 1
Released == <>(\A t \in Threads : pc[t] = "out")
RunsOnce == <>[](runs = 1 /\ co # << >> /\ A!AllRan)
=============================================================================
