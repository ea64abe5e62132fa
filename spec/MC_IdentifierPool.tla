------------------------- MODULE MC_IdentifierPool -------------------------
(* The algorithm of the pool (a shared "next" cursor scanning cyclically for *)
(* a free identifier, under a lock), several threads, against the abstract   *)
(* IdentifierPool it must implement.                                         *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS N, Threads, Slots
VARIABLES hold, next, lock, pc, try, old, tgt
Ids == 0 .. N - 1
A == INSTANCE IdentifierPool WITH Pools <- {0}
vars == <<hold, next, lock, pc, try, old, tgt>>

Init == /\ hold = << >> /\ next = 0 /\ lock = 0
        /\ pc = [t \in Threads |-> "idle"] /\ try = [t \in Threads |-> 0]
        /\ old = [t \in Threads |-> 0] /\ tgt = [t \in Threads |-> 0]

Begin(t, s) == /\ pc[t] = "idle" /\ s \notin DOMAIN hold
               /\ \A u \in Threads : pc[u] # "idle" => tgt[u] # s
               /\ lock = 0 /\ lock' = t
               /\ try' = [try EXCEPT ![t] = next] /\ old' = [old EXCEPT ![t] = next]
               /\ tgt' = [tgt EXCEPT ![t] = s]
               /\ pc' = [pc EXCEPT ![t] = "scan"]
               /\ UNCHANGED <<hold, next>>
Scan(t) == /\ pc[t] = "scan"
           /\ IF try[t] \in A!Reserved(0)
              THEN /\ try' = [try EXCEPT ![t] = (@ + 1) % N]
                   /\ IF try'[t] = old[t]
                      THEN /\ A!Exhausted(0)
                           /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ next' = next
                      ELSE UNCHANGED <<hold, lock, pc, next>>
              ELSE /\ A!Reserve(tgt[t], 0, try[t])
                   /\ next' = (try[t] + 1) % N
                   /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"]
                   /\ UNCHANGED try
           /\ UNCHANGED <<old, tgt>>
\* Giving back takes the lock, too.
Recycle(t, s) == /\ pc[t] = "idle" /\ lock = 0 /\ s \in DOMAIN hold
                 /\ A!Release(s) /\ UNCHANGED <<next, lock, pc, try, old, tgt>>
MoveH(t, d, s) == /\ pc[t] = "idle" /\ lock = 0 /\ s \in DOMAIN hold /\ d # s
                  /\ \A u \in Threads : pc[u] # "idle" => tgt[u] \notin {d, s}
                  /\ A!Move(d, s) /\ UNCHANGED <<next, lock, pc, try, old, tgt>>
Next == \E t \in Threads :
          \/ Scan(t)
          \/ \E s \in Slots : Begin(t, s) \/ Recycle(t, s) \/ \E d \in Slots : MoveH(t, d, s)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Scan(t))

Unique == A!Unique
InRange == A!InRange
\* The scan succeeds whenever a free identifier exists: never "exhausted" early.
NeverExhaustedEarly ==
  [][\A t \in Threads :
       (pc[t] = "scan" /\ pc'[t] = "idle" /\ hold' = hold) => A!Reserved(0) = Ids]_vars
\* A scan terminates.
ScanEnds == \A t \in Threads : pc[t] = "scan" ~> pc[t] = "idle"
=============================================================================
