--------------------------- MODULE MC_ObjectTree ---------------------------
(* No link is ever left to an object that is gone, no object is above itself, *)
(* every object is handed over at most once, and destruction ends, taking     *)
(* everything below along.                                                    *)
EXTENDS ObjectTree
CONSTANT O
VARIABLES fresh, freed, below     \* never used; handed over; what was below the ones dying
vars == <<up, dying, fresh, freed, below>>
RECURSIVE Above(_, _)
Above(i, k) == IF k = 0 \/ up[i] = 0 THEN {} ELSE {up[i]} \cup Above(up[i], k - 1)
Below(i) == {c \in Live : i \in Above(c, Cardinality(O))}
Init == up = << >> /\ dying = {} /\ fresh = O /\ freed = {} /\ below = {}
Make == \E i \in fresh, p \in (Live \ dying) \cup {0} : New(i, p) /\ fresh' = fresh \ {i} /\ UNCHANGED <<freed, below>>
\* By itself, or because it was handed over.
Destroy == \E i \in Live \ dying : /\ (up[i] = 0 \/ up[i] \notin dying) /\ Begin(i)
                                   /\ below' = below \cup Below(i) /\ UNCHANGED <<fresh, freed>>
HandOver == \E c \in Live : Free(c) /\ freed' = freed \cup {c} /\ UNCHANGED <<fresh, below>>
Owned == \E i \in freed : Begin(i) /\ UNCHANGED <<fresh, freed, below>>
Gone == \E i \in dying : End(i) /\ UNCHANGED <<fresh, freed, below>>
Next == Make \/ Destroy \/ HandOver \/ Owned \/ Gone
Spec == Init /\ [][Next]_vars /\ WF_vars(HandOver) /\ WF_vars(Owned) /\ WF_vars(Gone)
Links == \A i \in Live : up[i] \in Live \cup {0}
Forest == \A i \in Live : i \notin Above(i, Cardinality(O))
Dying == \A i \in dying : up[i] = 0
Ends == \A i \in O : i \in dying \cup below ~> i \notin Live
=============================================================================
