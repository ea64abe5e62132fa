------------------------------ MODULE MC_Strand ------------------------------
(* The algorithm: a list of tasks under a lock and one slice task, which is   *)
(* either kept by the strand (idle) or is in the pool, queued or running;     *)
(* each run of it runs one task and puts it back into the pool while there    *)
(* are more.  A strand is stopped by taking the pool away from it.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, Submitters, PerSub, Joiners, Inside
VARIABLES q, act, gone, stop, par,
          idle, pool, pc, cur, todo, joined
Q == INSTANCE TaskQueue
qv == <<q, act, gone, stop, par>>
ov == <<idle, pool, pc, cur, todo, joined>>
vars == <<qv, ov>>
Threads == Workers \cup Submitters \cup Joiners
Init == /\ q = << >> /\ act = << >> /\ gone = {} /\ stop = FALSE /\ par = 1
        /\ idle = TRUE /\ pool = 0 /\ cur = [w \in Workers |-> 0]
        /\ todo = [t \in Submitters |-> PerSub] /\ joined = FALSE
        /\ pc = [t \in Threads |-> IF t \in Workers THEN "pool" ELSE "go"]
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Id(t) == 100 * t + todo[t]
\* Each of these is one critical section of the lock of the strand.
Sub(t) == /\ todo[t] > 0 /\ Q!Submit(Id(t)) /\ todo' = [todo EXCEPT ![t] = @ - 1]
          /\ IF idle /\ ~stop THEN idle' = FALSE /\ pool' = pool + 1 ELSE UNCHANGED <<idle, pool>>
          /\ UNCHANGED <<pc, cur, joined>>
WPool(w) == /\ pc[w] = "pool" /\ pool > 0 /\ pool' = pool - 1 /\ Go(w, "first")
            /\ UNCHANGED <<qv, idle, cur, todo, joined>>
WFirst(w) == /\ pc[w] = "first" /\ UNCHANGED <<pool, todo, joined>>
             /\ IF stop THEN idle' = TRUE /\ Go(w, "pool") /\ UNCHANGED <<qv, cur>>
                ELSE Q!Take /\ cur' = [cur EXCEPT ![w] = Head(q)] /\ Go(w, "run") /\ UNCHANGED idle
\* The task itself may stop the strand.
WStop(w) == /\ Inside /\ pc[w] = "run" /\ Q!Stop /\ ~stop /\ UNCHANGED ov
WRun(w) == /\ pc[w] = "run" /\ Q!Finish(cur[w]) /\ cur' = [cur EXCEPT ![w] = 0] /\ Go(w, "next")
           /\ UNCHANGED <<idle, pool, todo, joined>>
WNext(w) == /\ pc[w] = "next" /\ Go(w, "pool") /\ UNCHANGED <<qv, cur, todo, joined>>
            /\ IF ~stop /\ q # << >> THEN pool' = pool + 1 /\ UNCHANGED idle ELSE idle' = TRUE /\ UNCHANGED pool
JStop(t) == /\ t \in Joiners /\ pc[t] = "go" /\ Q!Stop /\ Go(t, "wait") /\ UNCHANGED <<idle, pool, cur, todo, joined>>
JEnd(t) == /\ t \in Joiners /\ pc[t] = "wait" /\ idle /\ Go(t, "end") /\ joined' = TRUE
           /\ UNCHANGED <<qv, idle, pool, cur, todo>>
Worker(w) == WPool(w) \/ WFirst(w) \/ WRun(w) \/ WNext(w)
Next == (\E w \in Workers : Worker(w) \/ WStop(w)) \/ (\E t \in Submitters : Sub(t)) \/ (\E t \in Joiners : JStop(t) \/ JEnd(t))
Spec == Init /\ [][Next]_vars /\ (\A w \in Workers : WF_vars(Worker(w))) /\ (\A t \in Submitters : WF_vars(Sub(t)))
        /\ \A t \in Joiners : WF_vars(JEnd(t))
----
Busy == {w \in Workers : pc[w] \in {"first", "run", "next"}}
\* There is one slice task.
Slice == pool + Cardinality(Busy) + (IF idle THEN 1 ELSE 0) = 1
Awake == (q # << >> /\ ~stop) => ~idle
Joined == joined => Busy = {} /\ Q!Idle
AllRun == \A i \in {100 * t + k : t \in Submitters, k \in 1 .. PerSub} : Q!Queued(i) ~> (stop \/ ~Q!Queued(i))
JoinEnds == \A t \in Joiners : pc[t] = "wait" ~> pc[t] = "end"
Abstract == Q!Init /\ [][Q!Take \/ Q!Stop \/ (\E i \in 0 .. 999 : Q!Submit(i) \/ Q!Finish(i))]_qv
=============================================================================
