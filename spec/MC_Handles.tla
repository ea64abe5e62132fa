----------------------------- MODULE MC_Handles -----------------------------
(* What is open is owned once, by a handle or by whom it was released to.     *)
EXTENDS Handles
CONSTANTS H, X
VARIABLES used
vars == <<own, open, raw, used>>
Init == own = [h \in H |-> 0] /\ open = {} /\ raw = {} /\ used = {}
Next == /\ \/ \E h \in H, x \in X \ used : Make(h, x) \/ (\E g \in H : Duplicate(h, g, x)) \/ Reset(h, x)
           \/ \E h \in H : \E x \in raw \cup {0, own[h]} : Reset(h, x)
           \/ \E h, g \in H : Move(h, g)
           \/ \E h \in H : Release(h) \/ Close(h)
           \/ \E x \in raw : CloseRaw(x)
        /\ used' = used \cup open'
Spec == Init /\ [][Next]_vars
Exact == open = Owned \cup raw /\ Owned \cap raw = {}
Once == \A h, g \in H : own[h] = own[g] /\ h # g => own[h] = 0
=============================================================================
