--------------------------- MODULE MC_SharedParts ---------------------------
EXTENDS SharedParts
CONSTANTS Obj
W == {1}
vars == <<holds, shape, gone, weak>>
Init == holds = [s \in Slot |-> None] /\ shape = << >> /\ gone = {} /\ weak = [w \in W |-> None]
Next == \/ \E s \in Slot : Drop(s)
        \/ \E s \in Slot, o \in Obj, n \in 1 .. 2 : New(s, o, n)
        \/ \E s, t \in Slot : Copy(s, t) \/ Move(s, t) \/ Part(s, t, 1) \/ Part(s, t, 2)
        \/ \E w \in W, s \in Slot : Weak(w, s, 0) \/ Weak(w, s, 1) \/ Lock(w, s)
Spec == Init /\ [][Next]_vars
\* What is held exists; what is not held is gone, and never comes back.
Alive == Held(holds) = Objects \ gone
Never == [][gone \subseteq gone']_vars
Parts == \A s \in Slot : holds[s] # None => holds[s][2] \in 0 .. shape[holds[s][1]]
=============================================================================
