----------------------------- MODULE EventLoop -----------------------------
(* Descriptors are registered with a handler and the conditions it waits for; *)
(* a registration is armed until its handler has been called for it once.     *)
(* Each iteration of the loop first collects what has happened on armed       *)
(* registrations, then calls the handlers, one after the other.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES reg,     \* descriptor -> [h |-> handler (0: none), ev |-> conditions, armed]
          cond,    \* descriptor -> conditions that hold
          running, \* the thread in the loop, 0 if none
          phase, batch, cur, stop
ev == <<reg, cond, running, phase, batch, cur, stop>>
Bits == {1, 4, 16}
Has(m, b) == (m \div b) % 2 = 1
And(m, k) == (IF Has(m, 1) /\ Has(k, 1) THEN 1 ELSE 0) + (IF Has(m, 4) /\ Has(k, 4) THEN 4 ELSE 0)
             + (IF Has(m, 16) /\ Has(k, 16) THEN 16 ELSE 0)
\* Hang-ups are always reported.
Eff(f) == And((IF Has(reg[f].ev, 16) THEN 0 ELSE 16) + reg[f].ev, cond[f])
Init == /\ reg = << >> /\ cond = << >> /\ running = 0 /\ phase = "out" /\ batch = {} /\ cur = 0 /\ stop = FALSE
In == DOMAIN reg
Put(f, h, e) == reg' = (f :> [h |-> h, ev |-> e, armed |-> TRUE]) @@ reg
Same == UNCHANGED <<cond, running, phase, batch, cur, stop>>
Insert(f, h, e) == f \notin In /\ Put(f, h, e) /\ Same
Modify(f, h, e) == f \in In /\ Put(f, h, e) /\ Same
Remove(f) == f \in In /\ reg' = [x \in In \ {f} |-> reg[x]] /\ Same
SetCond(f, c) == cond' = (f :> c) @@ cond /\ UNCHANGED <<reg, running, phase, batch, cur, stop>>
Enter(t) == running = 0 /\ running' = t /\ phase' = "wait" /\ UNCHANGED <<reg, cond, batch, cur, stop>>
Ready(f) == reg[f].armed /\ f \in DOMAIN cond /\ Eff(f) # 0
Collect(f) == /\ running # 0 /\ phase = "wait" /\ f \in In /\ Ready(f)
              /\ reg' = [reg EXCEPT ![f].armed = FALSE]
              \* (the handler of a disabled registration does nothing)
              /\ batch' = (IF reg[f].h = 0 THEN batch ELSE batch \cup {<<f, reg[f].h, Eff(f)>>})
              /\ UNCHANGED <<cond, running, phase, cur, stop>>
Call(x) == /\ running # 0 /\ x \in batch /\ cur = 0 /\ batch' = batch \ {x} /\ cur' = x[2] /\ phase' = "call"
           /\ UNCHANGED <<reg, cond, running, stop>>
Called == cur # 0 /\ cur' = 0 /\ UNCHANGED <<reg, cond, running, phase, batch, stop>>
Ended == running # 0 /\ batch = {} /\ cur = 0
Iterate == Ended /\ phase' = "wait" /\ UNCHANGED <<reg, cond, running, batch, cur, stop>>
Stop == stop' = TRUE /\ UNCHANGED <<reg, cond, running, phase, batch, cur>>
Leave == Ended /\ stop /\ running' = 0 /\ phase' = "out" /\ UNCHANGED <<reg, cond, batch, cur, stop>>
\* The loop has nothing left to do.
Quiet == IF running = 0 THEN TRUE
         ELSE ~stop /\ Ended /\ \A f \in In : ~(Ready(f) /\ reg[f].h # 0)
=============================================================================
