----------------------------- MODULE SharedSet -----------------------------
(* A set that shares the ownership of its items with others (slots): of items *)
(* with equal keys only one is in it; items live while the set or a slot      *)
(* holds them and die at the operation that ends this.                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES slot, in, key       \* what each slot holds (0: nothing); the items in the set; the key of each item made
Held == {slot[s] : s \in DOMAIN slot} \ {0}
Alive == in \cup Held
AliveNext == in' \cup ({slot'[s] : s \in DOMAIN slot} \ {0})
Died == Alive \ AliveNext
Equal(i) == {j \in in : key[j] = key[i]}
With(f, x, y) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN y ELSE f[k]]
Put(s, i) == slot' = [slot EXCEPT ![s] = i]
Make(s, i, k) == i \notin DOMAIN key /\ key' = With(key, i, k) /\ Put(s, i) /\ UNCHANGED in
\* Of a copy of the slot's reference, or of the reference itself.
Insert(s, moved) ==
  /\ slot[s] # 0 /\ in' = IF Equal(slot[s]) = {} THEN in \cup {slot[s]} ELSE in
  /\ slot' = IF moved THEN [slot EXCEPT ![s] = 0] ELSE slot
  /\ UNCHANGED key
InsertFails(s, moved) == slot' = (IF moved THEN [slot EXCEPT ![s] = 0] ELSE slot) /\ UNCHANGED <<in, key>>
Drop(s) == Put(s, 0) /\ UNCHANGED <<in, key>>
Erase(i) == i \in in /\ in' = in \ {i} /\ UNCHANGED <<slot, key>>
EraseEqual(i) == in' = in \ Equal(i) /\ UNCHANGED <<slot, key>>
Take(s, i) == i \in in /\ in' = in \ {i} /\ Put(s, i) /\ UNCHANGED key
Hold(s, i) == i \in in /\ Put(s, i) /\ UNCHANGED <<in, key>>
Destroy == in' = {} /\ UNCHANGED <<slot, key>>
Find(k) == {i \in in : key[i] = k}
Holders(i) == Cardinality({s \in DOMAIN slot : slot[s] = i}) + 1
=============================================================================
