----------------------------- MODULE ObjectTree -----------------------------
(* A forest of objects: each has a parent or none, the parents own the        *)
(* children. Destroying an object unlinks it from its parent and hands its   *)
(* own children over to be freed, each once.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES up, dying      \* the parent (0: none) of each live object; those on their way out
Live == DOMAIN up
Kids(p) == {c \in Live : up[c] = p}
With(i, p) == [k \in Live \cup {i} |-> IF k = i THEN p ELSE up[k]]
New(i, p) == i \notin Live /\ (p = 0 \/ p \in Live) /\ up' = With(i, p) /\ UNCHANGED dying
\* Destruction begins: of an object without a parent any more or one that was
\* destroyed by itself.
Begin(i) == /\ i \in Live \ dying /\ dying' = dying \cup {i} /\ up' = [up EXCEPT ![i] = 0]
\* A child of one being destroyed is handed over.
Free(c) == /\ c \in Live \ dying /\ up[c] \in dying /\ up' = [up EXCEPT ![c] = 0] /\ UNCHANGED dying
\* It is gone when nothing of it is left.
End(i) == /\ i \in dying /\ Kids(i) = {} /\ up' = [k \in Live \ {i} |-> up[k]] /\ dying' = dying \ {i}
=============================================================================
