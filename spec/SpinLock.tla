------------------------------ MODULE SpinLock ------------------------------
(* A fair lock: waiters queue up when they arrive and are served in order.    *)
EXTENDS Naturals, Sequences
VARIABLES holder, queue, data   \* 0 = free; arrived threads; the guarded datum
lock == <<holder, queue, data>>
Init == holder = 0 /\ queue = << >> /\ data = 0
InQueue(t) == \E i \in 1 .. Len(queue) : queue[i] = t
Arrive(t) == ~InQueue(t) /\ holder # t /\ queue' = Append(queue, t) /\ UNCHANGED <<holder, data>>
Acquire(t) == /\ holder = 0 /\ queue # << >> /\ Head(queue) = t
              /\ holder' = t /\ queue' = Tail(queue) /\ UNCHANGED data
Release(t) == holder = t /\ holder' = 0 /\ UNCHANGED <<queue, data>>
Update(t, old) == holder = t /\ data = old /\ data' = old + 1 /\ UNCHANGED <<holder, queue>>
=============================================================================
