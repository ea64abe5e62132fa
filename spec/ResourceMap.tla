---------------------------- MODULE ResourceMap ----------------------------
(* A map from keys to shared resources, as its users see it: they hold        *)
(* references in slots; a resource is created by the first request for its    *)
(* key, and destroyed some time after its last reference is gone.             *)
EXTENDS Integers, FiniteSets, TLC
VARIABLES live,   \* resources alive: id -> key
          hold    \* slot -> id
rv == <<live, hold>>
Init == live = << >> /\ hold = << >>
Used(i) == \E s \in DOMAIN hold : hold[s] = i
Of(k) == {i \in DOMAIN live : live[i] = k}
Create(i, k) == Of(k) = {} /\ i \notin DOMAIN live /\ live' = (i :> k) @@ live /\ UNCHANGED hold
Hold(s, i) == s \notin DOMAIN hold /\ i \in DOMAIN live /\ hold' = (s :> i) @@ hold /\ UNCHANGED live
Drop(s) == hold' = [x \in DOMAIN hold \ {s} |-> hold[x]] /\ UNCHANGED live
Destroy(i) == /\ i \in DOMAIN live /\ ~Used(i)
              /\ live' = [x \in DOMAIN live \ {i} |-> live[x]] /\ UNCHANGED hold
OnePerKey == \A i, j \in DOMAIN live : live[i] = live[j] => i = j
AllUsed == \A i \in DOMAIN live : Used(i)
=============================================================================
