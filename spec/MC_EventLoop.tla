---------------------------- MODULE MC_EventLoop ----------------------------
(* The algorithm: whoever runs the loop holds a mutex.  Each iteration waits  *)
(* for events (a pipe is one of the sources), calls the handlers, empties the *)
(* pipe, and advances a counter (Moved: it has, since the waiter looked at    *)
(* it).  Those waiting for the end of an iteration look at the counter, try   *)
(* the mutex, write to the pipe, and spin on both; stopping closes the pipe   *)
(* and then waits for the mutex.  The timeout of the polls is not relied on.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Waiters, Stoppers, Cap, Recheck, Rounds
VARIABLES reg, cond, running, phase, batch, cur, stop,
          mux, pipe, closed, moved, pc, rpc, left, dead, woke,
          seen  \* stoppers that found the loop running
L == INSTANCE EventLoop
lv == <<reg, cond, running, phase, batch, cur, stop>>
av == <<mux, pipe, closed, moved, pc, rpc, left, dead, woke, seen>>
vars == <<lv, av>>
Runner == 99
Threads == Waiters \cup Stoppers
Drop == CHOOSE w \in Waiters : \A x \in Waiters : w <= x
Init == /\ L!Init /\ mux = 0 /\ pipe = 0 /\ closed = FALSE /\ moved = [w \in Waiters |-> TRUE]
        /\ pc = [t \in Threads |-> "start"] /\ rpc = "out" /\ left = Rounds /\ dead = FALSE /\ woke = FALSE /\ seen = {}
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* --- the outside: a descriptor, its handler 1, (re-)armed from outside
Env == \/ 1 \notin L!In /\ ~dead /\ pc[Drop] = "start" /\ L!Insert(1, 1, 1) /\ UNCHANGED av
       \/ 1 \in L!In /\ ~reg[1].armed /\ ~dead /\ left > 0 /\ left' = left - 1 /\ L!Modify(1, 1, 1)
          /\ UNCHANGED <<mux, pipe, closed, moved, pc, rpc, dead, woke, seen>>
       \/ left > 0 /\ left' = left - 1 /\ (\E c \in {1, 4} : L!SetCond(1, c))
          /\ UNCHANGED <<mux, pipe, closed, moved, pc, rpc, dead, woke, seen>>
\* --- the loop
RLock == rpc = "out" /\ mux = 0 /\ mux' = Runner /\ rpc' = "poll" /\ L!Enter(Runner)
         /\ UNCHANGED <<pipe, closed, moved, pc, left, dead, woke, seen>>
RTake == rpc = "poll" /\ (\E f \in L!In : L!Collect(f)) /\ UNCHANGED av
\* epoll_wait returns (with what was taken and the state of the pipe), or has nothing to report and goes on
RPolled == /\ rpc = "poll" /\ (batch # {} \/ pipe > 0 \/ closed)
           /\ woke' = (pipe > 0 \/ closed) /\ rpc' = "call" /\ UNCHANGED <<lv, mux, pipe, closed, moved, pc, left, dead, seen>>
RTimeout == /\ rpc = "poll" /\ batch = {} /\ left > 0 /\ left' = left - 1 /\ rpc' = "finish"
            /\ UNCHANGED <<lv, mux, pipe, closed, moved, pc, dead, woke, seen>>
RCall == rpc = "call" /\ (\E x \in batch : L!Call(x)) /\ UNCHANGED av
RBack == rpc = "call" /\ L!Called /\ UNCHANGED av
RFlush == /\ rpc = "call" /\ L!Ended
          /\ IF woke /\ closed THEN rpc' = "leave" /\ UNCHANGED pipe
             ELSE rpc' = "finish" /\ pipe' = (IF woke THEN 0 ELSE pipe)
          /\ woke' = FALSE /\ UNCHANGED <<lv, mux, closed, moved, pc, left, dead, seen>>
RFinish == /\ rpc = "finish" /\ moved' = [w \in Waiters |-> TRUE] /\ L!Iterate /\ rpc' = "poll"
           /\ UNCHANGED <<mux, pipe, closed, pc, left, dead, woke, seen>>
RLeave == /\ rpc = "leave" /\ moved' = [w \in Waiters |-> TRUE] /\ rpc' = "unlock"
          /\ L!Leave /\ UNCHANGED <<mux, pipe, closed, pc, left, dead, woke, seen>>
RUnlock == rpc = "unlock" /\ mux' = 0 /\ rpc' = "end" /\ UNCHANGED <<lv, pipe, closed, moved, pc, left, dead, woke, seen>>
\* --- waiting for the end of an iteration; Drop removes before, and destroys the handler after
WStart(w) == /\ pc[w] = "start" /\ (IF w = Drop /\ 1 \in L!In THEN L!Remove(1) ELSE UNCHANGED lv)
             /\ Go(w, "load") /\ UNCHANGED <<mux, pipe, closed, moved, rpc, left, dead, woke, seen>>
WLoad(w) == pc[w] = "load" /\ moved' = [moved EXCEPT ![w] = FALSE] /\ Go(w, "try")
            /\ UNCHANGED <<lv, mux, pipe, closed, rpc, left, dead, woke, seen>>
WTry(w) == /\ pc[w] \in {"try", "again"}
           /\ IF mux = 0 THEN mux' = w /\ Go(w, "unlock")
              ELSE UNCHANGED mux /\ Go(w, IF pc[w] = "try" THEN "look" ELSE "spin")
           /\ UNCHANGED <<lv, pipe, closed, moved, rpc, left, dead, woke, seen>>
WUnlock(w) == pc[w] = "unlock" /\ mux' = 0 /\ Go(w, "done") /\ UNCHANGED <<lv, pipe, closed, moved, rpc, left, dead, woke, seen>>
WLook(w) == /\ pc[w] = "look" /\ Go(w, IF moved[w] THEN "done" ELSE "write")
            /\ UNCHANGED <<lv, mux, pipe, closed, moved, rpc, left, dead, woke, seen>>
\* (a full pipe will wake the loop up anyway, and so will a closed one)
WWrite(w) == /\ pc[w] = "write" /\ Go(w, "spin") /\ pipe' = (IF closed \/ pipe = Cap THEN pipe ELSE pipe + 1)
             /\ UNCHANGED <<lv, mux, closed, moved, rpc, left, dead, woke, seen>>
WSpin(w) == /\ pc[w] = "spin" /\ (moved[w] \/ Recheck) /\ Go(w, IF moved[w] THEN "done" ELSE "again")
            /\ UNCHANGED <<lv, mux, pipe, closed, moved, rpc, left, dead, woke, seen>>
WDrop == pc[Drop] = "done" /\ ~dead /\ dead' = TRUE /\ UNCHANGED <<lv, mux, pipe, closed, moved, pc, rpc, left, woke, seen>>
Waiter(w) == WStart(w) \/ WLoad(w) \/ WTry(w) \/ WUnlock(w) \/ WLook(w) \/ WWrite(w) \/ WSpin(w)
\* --- stopping
SClose(s) == pc[s] = "start" /\ closed' = TRUE /\ L!Stop /\ Go(s, "lock") /\ seen' = (IF running # 0 THEN seen \cup {s} ELSE seen) /\ UNCHANGED <<mux, pipe, moved, rpc, left, dead, woke>>
SLock(s) == pc[s] = "lock" /\ mux = 0 /\ mux' = s /\ Go(s, "unlock2") /\ UNCHANGED <<lv, pipe, closed, moved, rpc, left, dead, woke, seen>>
SUnlock(s) == pc[s] = "unlock2" /\ mux' = 0 /\ Go(s, "done") /\ UNCHANGED <<lv, pipe, closed, moved, rpc, left, dead, woke, seen>>
Stopper(s) == SClose(s) \/ SLock(s) \/ SUnlock(s)
Loop == RLock \/ RTake \/ RPolled \/ RCall \/ RBack \/ RFlush \/ RFinish \/ RLeave \/ RUnlock
Next == Env \/ Loop \/ RTimeout \/ WDrop \/ (\E w \in Waiters : Waiter(w)) \/ (\E s \in Stoppers : Stopper(s))
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Loop)
        /\ \A w \in Waiters : WF_vars(Waiter(w))
        /\ \A s \in Stoppers : WF_vars(SClose(s)) /\ SF_vars(SLock(s)) /\ WF_vars(SUnlock(s))
        /\ SF_vars(RLock)
\* --- what is promised
OneRunner == running # 0 => mux = Runner
\* A handler taken away, then waited for, is not called and will not be.
NoUseAfterDrop == dead => cur = 0 /\ batch = {}
AtMostOnce == Cardinality(batch) <= 1
Stopped == \A s \in seen : pc[s] = "done" => running = 0
StopWorks == \A s \in Stoppers : <>(pc[s] = "done")
RunEnds == (closed /\ running # 0) ~> (running = 0)
WaitsEnd == \A w \in Waiters : pc[w] = "load" ~> pc[w] = "done"
Served == (1 \in L!In /\ L!Ready(1) /\ running # 0) ~> (1 \notin L!In \/ ~L!Ready(1) \/ running = 0)
=============================================================================
