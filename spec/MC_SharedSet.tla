---------------------------- MODULE MC_SharedSet ----------------------------
(* Items die once and only when nothing holds them; keys in the set differ.   *)
EXTENDS SharedSet
CONSTANTS I, S, K
VARIABLES gone
vars == <<slot, in, key, gone>>
Init == slot = [s \in S |-> 0] /\ in = {} /\ key = << >> /\ gone = {}
Step == \/ \E s \in S, i \in I \ DOMAIN key, k \in K : Make(s, i, k)
        \/ \E s \in S, m \in BOOLEAN : Insert(s, m) \/ (slot[s] # 0 /\ InsertFails(s, m))
        \/ \E s \in S : Drop(s)
        \/ \E i \in Alive : Erase(i) \/ EraseEqual(i)
        \/ \E s \in S, i \in in : Take(s, i) \/ Hold(s, i)
        \/ Destroy
Next == Step /\ gone' = gone \cup Died
Spec == Init /\ [][Next]_vars
Once == gone \cap Alive = {} /\ gone \cup Alive = DOMAIN key
Unique == \A i, j \in in : key[i] = key[j] => i = j
\* Nothing but what the set or a slot gave up last dies.
NoResurrection == [][\A i \in gone : i \in gone']_vars
=============================================================================
