---------------------------- MODULE MC_TaskQueue ----------------------------
(* The algorithm: a linked list with an empty node at its end, a mutex for    *)
(* its head, held by one consumer also while it waits, and one for its tail,  *)
(* with a condition variable.  Node n is the n-th ever made; val[n] its task. *)
(* Timed workers may give up on the mutex and on the condition variable.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, Timed, Submitters, PerSub, WithStop, NotifyOne
VARIABLES q, act, gone, stop, par,          \* TaskQueue
          val, head, tail, hm, tm,          \* the list, the owners of the mutexes (0: free)
          pc, todo, cur, wake
Q == INSTANCE TaskQueue
qv == <<q, act, gone, stop, par>>
ov == <<val, head, tail, hm, tm, pc, todo, cur, wake>>
vars == <<qv, ov>>
Stopper == 99
Threads == Workers \cup Submitters \cup {Stopper}
None == 0
Init == /\ q = << >> /\ act = << >> /\ gone = {} /\ stop = FALSE /\ par = Cardinality(Workers)
        /\ val = << >> /\ head = 1 /\ tail = 1 /\ hm = 0 /\ tm = 0
        /\ pc = [t \in Threads |-> IF t = Stopper THEN "stop" ELSE IF t \in Submitters THEN "sub" ELSE "head"]
        /\ todo = [t \in Submitters |-> PerSub] /\ cur = [t \in Workers |-> None] /\ wake = {}
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Id(t) == 100 * t + todo[t]
Sleepers == {t \in Workers : pc[t] = "asleep" /\ t \notin wake}
\* A submitter, all under the tail mutex: two steps, so that others see it held.
SubLock(t) == /\ t \in Submitters /\ pc[t] = "sub" /\ todo[t] > 0 /\ tm = 0 /\ tm' = t /\ Go(t, "put")
              /\ UNCHANGED <<qv, val, head, tail, hm, todo, cur, wake>>
SubPut(t) == /\ t \in Submitters /\ pc[t] = "put" /\ val' = Append(val, Id(t)) /\ tail' = tail + 1
             /\ Q!Submit(Id(t)) /\ todo' = [todo EXCEPT ![t] = @ - 1] /\ tm' = 0 /\ Go(t, "sub")
             /\ IF NotifyOne /\ Sleepers # {} THEN \E w \in Sleepers : wake' = wake \cup {w} ELSE UNCHANGED wake
             /\ UNCHANGED <<head, hm, cur>>
StopAll == /\ WithStop /\ pc[Stopper] = "stop" /\ tm = 0 /\ Q!Stop /\ wake' = wake \cup Sleepers /\ Go(Stopper, "end")
           /\ UNCHANGED <<val, head, tail, hm, tm, todo, cur>>
\* A worker.
WHead(t) == /\ pc[t] = "head" /\ hm = 0 /\ hm' = t /\ Go(t, "tail") /\ UNCHANGED <<qv, val, head, tail, tm, todo, cur, wake>>
WTail(t) == /\ pc[t] = "tail" /\ tm = 0 /\ tm' = t /\ Go(t, "test") /\ wake' = wake \ {t}
            /\ UNCHANGED <<qv, val, head, tail, hm, todo, cur>>
WStop(t) == /\ pc[t] = "test" /\ stop /\ tm' = 0 /\ hm' = 0 /\ Go(t, "end")
            /\ UNCHANGED <<qv, val, head, tail, todo, cur, wake>>
WWait(t) == /\ pc[t] = "test" /\ ~stop /\ head = tail /\ tm' = 0 /\ Go(t, "asleep")
            /\ UNCHANGED <<qv, val, head, tail, hm, todo, cur, wake>>
WTake(t) == /\ pc[t] = "test" /\ ~stop /\ head # tail /\ tm' = 0 /\ Go(t, "pop")
            /\ Q!Take /\ cur' = [cur EXCEPT ![t] = val[head]]
            /\ UNCHANGED <<val, head, tail, hm, todo, wake>>
\* The head is moved after the tail mutex has been released.
WPop(t) == /\ pc[t] = "pop" /\ head' = head + 1 /\ hm' = 0 /\ Go(t, "run")
           /\ UNCHANGED <<qv, val, tail, tm, todo, cur, wake>>
WRun(t) == /\ pc[t] = "run" /\ Q!Finish(cur[t]) /\ cur' = [cur EXCEPT ![t] = None] /\ Go(t, "head")
           /\ UNCHANGED <<val, head, tail, hm, tm, todo, wake>>
WWake(t) == /\ pc[t] = "asleep" /\ t \in wake /\ tm = 0 /\ tm' = t /\ Go(t, "test") /\ wake' = wake \ {t}
            /\ UNCHANGED <<qv, val, head, tail, hm, todo, cur>>
\* Giving up, on the head mutex or in the condition variable.
WGiveUp(t) == /\ t \in Timed /\ pc[t] = "head" /\ hm # 0 /\ Go(t, "gone")
              /\ UNCHANGED <<qv, val, head, tail, hm, tm, todo, cur, wake>>
WTimeout(t) == /\ t \in Timed /\ pc[t] = "asleep" /\ tm = 0 /\ hm' = 0 /\ wake' = wake \ {t} /\ Go(t, "gone")
               /\ UNCHANGED <<qv, val, head, tail, tm, todo, cur>>
Worker(t) == WHead(t) \/ WTail(t) \/ WStop(t) \/ WWait(t) \/ WTake(t) \/ WPop(t) \/ WRun(t) \/ WWake(t)
Quit(t) == WGiveUp(t) \/ WTimeout(t)
Sub(t) == SubLock(t) \/ SubPut(t)
Next == (\E t \in Workers : Worker(t) \/ Quit(t)) \/ (\E t \in Submitters : Sub(t)) \/ StopAll
Spec == Init /\ [][Next]_vars /\ (\A t \in Workers : WF_vars(Worker(t)) /\ SF_vars(WHead(t)) /\ SF_vars(WTail(t)))
        /\ (\A t \in Submitters : WF_vars(Sub(t)) /\ SF_vars(SubLock(t))) /\ WF_vars(StopAll)
----
\* What is between head and tail is the queue (one popped but not yet moved over).
Listed == q = IF \E t \in Workers : pc[t] = "pop" THEN SubSeq(val, head + 1, tail - 1) ELSE SubSeq(val, head, tail - 1)
Owners == /\ (hm # 0 => hm \in Workers) /\ Cardinality({t \in Workers : pc[t] \in {"tail", "test", "asleep", "pop"}}) <= 1
          /\ Cardinality({t \in Threads : pc[t] \in {"test", "put"}}) <= 1
Once == \A t, u \in Workers : t # u /\ cur[t] # None => cur[t] # cur[u]
\* Every task is run, if somebody stays to do so and nobody stops.
AllRun == \A i \in {100 * t + k : t \in Submitters, k \in 1 .. PerSub} :
            Q!Queued(i) ~> (stop \/ ~Q!Queued(i) \/ Workers = Timed)
Drained == (Workers # Timed /\ ~WithStop) => <>[](q = << >> /\ \A t \in Submitters : todo[t] = 0)
StopEnds == stop ~> \A t \in Workers : pc[t] \in {"end", "gone"}
Abstract == Q!Init /\ [][Q!Take \/ Q!Stop \/ (\E i \in 0 .. 999 : Q!Submit(i) \/ Q!Finish(i))]_qv
=============================================================================
