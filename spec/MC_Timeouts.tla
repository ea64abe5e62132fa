----------------------------- MODULE MC_Timeouts -----------------------------
(* The algorithm: a queue ordered by time under a mutex, a worker sleeping on *)
(* a condition variable, for ever or until the time of the first task; every  *)
(* addition wakes it up.  Time passes only while nothing else can happen.     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Adders, Times, MaxTime, Notify
VARIABLES st, dl, at, cur, idle, stop, now, mux, pc, wpc, until, woken, sp
T == INSTANCE Timeouts
tv == <<st, dl, at, cur, idle, stop>>
vars == <<tv, now, mux, pc, wpc, until, woken, sp>>
Stopper == 0
Threads == Adders \cup {Stopper}
Init == /\ st = [i \in Adders |-> "out"] /\ dl = << >> /\ at = << >> /\ cur = 0 /\ idle = 0
        /\ stop = FALSE /\ now = 0 /\ mux = -1 /\ pc = [t \in Threads |-> "start"]
        /\ wpc = "lock" /\ until = 0 /\ woken = FALSE /\ sp = 0
In == T!In
\* Adder t adds task t; the stopper adds the stop task, before all others.
Add(t) == /\ pc[t] = "start" /\ mux = -1
          /\ pc' = [pc EXCEPT ![t] = "end"] /\ woken' = (woken \/ (Notify /\ wpc = "asleep"))
          /\ IF t = Stopper THEN T!Stop ELSE \E d \in Times : T!Add(t, d, now)
          /\ UNCHANGED <<now, mux, wpc, until>>
WLock == /\ wpc = "lock" /\ mux = -1 /\ mux' = 99 /\ wpc' = "test" /\ UNCHANGED <<tv, now, pc, until, woken>>
First == CHOOSE i \in In : \A j \in In : dl[i] <= dl[j]
\* Sleep, until the first time or for ever (until = -1), or take.
WSleep == /\ wpc = "test" /\ ~stop /\ (IF In = {} THEN TRUE ELSE dl[First] > now)
          /\ until' = (IF In = {} THEN -1 ELSE dl[First]) /\ wpc' = "asleep" /\ woken' = FALSE
          /\ mux' = -1 /\ UNCHANGED <<tv, now, pc>>
WTake == /\ wpc = "test" /\ ~stop /\ In # {} /\ dl[First] <= now
         /\ T!Take(First) /\ wpc' = "run" /\ mux' = -1 /\ UNCHANGED <<now, pc, until, woken>>
WRun == /\ wpc = "run" /\ T!Ran(cur, now) /\ wpc' = "lock" /\ UNCHANGED <<now, mux, pc, until, woken>>
WStop == /\ wpc = "test" /\ stop /\ wpc' = "end" /\ mux' = -1 /\ UNCHANGED <<tv, now, pc, until, woken>>
TimeOut == until >= 0 /\ now >= until
WWake == /\ wpc = "asleep" /\ (woken \/ TimeOut) /\ mux = -1 /\ mux' = 99
         /\ wpc' = "test" /\ UNCHANGED <<tv, now, pc, until, woken>>
Spur == /\ sp < 2 /\ sp' = sp + 1 /\ wpc = "asleep" /\ ~woken /\ woken' = TRUE /\ UNCHANGED <<tv, now, mux, pc, wpc, until>>
Worker == WLock \/ WSleep \/ WTake \/ WRun \/ WStop \/ WWake
Tick == /\ ~ENABLED Worker /\ now < MaxTime /\ now' = now + 1
        /\ UNCHANGED <<tv, mux, pc, wpc, until, woken>>
Next == (((\E t \in Threads : Add(t)) \/ Worker \/ Tick) /\ UNCHANGED sp) \/ Spur
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker /\ UNCHANGED sp) /\ WF_vars(Tick /\ UNCHANGED sp)
NotEarly == cur # 0 => dl[cur] <= now
OnTime == ~stop => T!NoneLate(now)
StopEnds == (pc[Stopper] = "end") ~> (wpc = "end")
AllRun == \A i \in Adders : (st[i] = "in") ~> (st[i] = "run" \/ stop \/ now = MaxTime)
=============================================================================
