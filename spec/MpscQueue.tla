------------------------------ MODULE MpscQueue ------------------------------
(* Many producers, one consumer.  A push first takes its place in the order    *)
(* and is linked a moment later; the consumer sees linked items only.          *)
EXTENDS Naturals, Sequences
VARIABLES q    \* sequence of <<item, linked>>
Init == q = << >>
Place(x) == q' = Append(q, <<x, FALSE>>)
Link(x) == /\ \E i \in 1 .. Len(q) : q[i][1] = x /\ ~q[i][2]
           /\ q' = [i \in 1 .. Len(q) |-> IF q[i][1] = x THEN <<x, TRUE>> ELSE q[i]]
Visible == q # << >> /\ Head(q)[2]
Pop(x) == Visible /\ Head(q)[1] = x /\ q' = Tail(q)
Nothing == ~Visible /\ UNCHANGED q
=============================================================================
