------------------------------ MODULE Handles ------------------------------
(* Handles that own at most one thing each (0: none), of which every thing is *)
(* owned by at most one handle or by whom it was released to.                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES own, open, raw       \* per handle; the things there are; those released
Owned == {own[h] : h \in DOMAIN own} \ {0}
Free(o, new) == IF o # 0 /\ o # new THEN open \ {o} ELSE open
Set(h, x) == own' = [own EXCEPT ![h] = x]
Make(h, x) == x \notin open /\ open' = Free(own[h], 0) \cup {x} /\ Set(h, x) /\ UNCHANGED raw
\* Self-assignment changes nothing.
Move(h, g) == IF h = g THEN UNCHANGED <<own, open, raw>>
              ELSE /\ open' = Free(own[h], 0) /\ own' = [own EXCEPT ![h] = own[g], ![g] = 0] /\ UNCHANGED raw
Duplicate(h, g, x) == own[g] # 0 /\ Make(h, x)
Reset(h, x) == /\ (x = 0 \/ x = own[h] \/ x \in raw \/ x \notin open)
               /\ open' = Free(own[h], x) \cup ({x} \ {0}) /\ Set(h, x) /\ raw' = raw \ {x}
Release(h) == Set(h, 0) /\ raw' = raw \cup ({own[h]} \ {0}) /\ UNCHANGED open
Close(h) == Set(h, 0) /\ open' = Free(own[h], 0) /\ UNCHANGED raw
CloseRaw(x) == x \in raw /\ raw' = raw \ {x} /\ open' = open \ {x} /\ UNCHANGED own
=============================================================================
