------------------------------ MODULE Timeouts ------------------------------
(* A thread running tasks at their times, earliest first.                     *)
EXTENDS Integers, FiniteSets, TLC
VARIABLES st,    \* task -> "out" (with the user), "in" (set), "run" (taken), "gone"
          dl,    \* task -> time it is set for
          at,    \* task -> when it was set
          cur,   \* task taken or running, 0: none
          idle,  \* since when there is none
          stop   \* stop requested
tv == <<st, dl, at, cur, idle, stop>>
Init == /\ st = << >> /\ dl = << >> /\ at = << >> /\ cur = 0 /\ idle = 0 /\ stop = FALSE
Put(f, k, v) == (k :> v) @@ f
In == {i \in DOMAIN st : st[i] = "in"}
Max2(a, b) == IF a > b THEN a ELSE b
\* When a task has to start if nothing else keeps the thread busy.
Due(i) == Max2(Max2(dl[i], at[i]), idle)
Make(i) == i \notin DOMAIN st /\ st' = Put(st, i, "out") /\ UNCHANGED <<dl, at, cur, idle, stop>>
Add(i, d, now) == /\ i \in DOMAIN st /\ (st[i] = "out" \/ (st[i] = "run" /\ cur = i))
                  /\ st' = [st EXCEPT ![i] = "in"] /\ dl' = Put(dl, i, d) /\ at' = Put(at, i, now)
                  /\ UNCHANGED <<cur, idle, stop>>
\* The earliest is taken, unless a stop is pending.
Take(i) == /\ i \in In /\ cur = 0 /\ ~stop /\ (\A j \in In : dl[i] <= dl[j])
           /\ cur' = i /\ st' = [st EXCEPT ![i] = "run"] /\ UNCHANGED <<dl, at, idle, stop>>
Runs(i, now) == cur = i /\ now >= dl[i]
Ran(i, now) == cur = i /\ cur' = 0 /\ idle' = now /\ UNCHANGED <<st, dl, at, stop>>
\* The user takes a task back, from within it.
Keep(i) == cur = i /\ st[i] = "run" /\ st' = [st EXCEPT ![i] = "out"]
           /\ UNCHANGED <<dl, at, cur, idle, stop>>
Stop == stop' = TRUE /\ UNCHANGED <<st, dl, at, cur, idle>>
\* A task is destroyed by its owner: after its run, or with the thread.
Destroy(i) == /\ i \in DOMAIN st
              /\ (st[i] \in {"out", "run"} \/ (st[i] = "in" /\ stop /\ cur = 0))
              /\ st' = [st EXCEPT ![i] = "gone"] /\ UNCHANGED <<dl, at, cur, idle, stop>>
Over == stop /\ cur = 0
NoneLate(now) == cur = 0 => \A i \in In : Due(i) >= now
=============================================================================
