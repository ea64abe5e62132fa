----------------------------- MODULE RingBuffer -----------------------------
(* A bounded FIFO between one producer and one consumer, stored in a circular *)
(* array whose layout (offsets, contiguous stretches) is part of the API.     *)
EXTENDS Naturals, Integers, Sequences
VARIABLES q, cap, wo, ro   \* content, capacity, write and read offsets
rb == <<q, cap, wo, ro>>

Min(a, b) == IF a < b THEN a ELSE b
Space == cap - Len(q)
SpaceUntilEnd == Min(Space, cap - wo)
DataUntilEnd == Min(Len(q), cap - ro)

InitCap(c) == q = << >> /\ cap = c /\ wo = 0 /\ ro = 0
\* The producer makes elements available ...
Put(xs) == /\ Len(xs) <= Space /\ q' = q \o xs
           /\ wo' = (wo + Len(xs)) % cap /\ UNCHANGED <<cap, ro>>
\* ... the consumer gives places back.
Take(k) == /\ k <= Len(q) /\ q' = SubSeq(q, k + 1, Len(q))
           /\ ro' = (ro + k) % cap /\ UNCHANGED <<cap, wo>>
First(k) == SubSeq(q, 1, k)
Bounded == Len(q) <= cap /\ (cap > 0 => (ro + Len(q)) % cap = wo)
=============================================================================
