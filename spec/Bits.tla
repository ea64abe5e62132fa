-------------------------------- MODULE Bits --------------------------------
(* Bit vectors are sequences of 0 and 1.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE o           \* vector -> sequence
Set(i, s) == o' = [o EXCEPT ![i] = s]
Same == o' = o
All(n, b) == [k \in 1 .. n |-> b]
Min(a, b) == IF a < b THEN a ELSE b
\* What bits come anew is unspecified.
Resize(i, n, new) == Set(i, [k \in 1 .. n |-> IF k <= Len(o[i]) THEN o[i][k] ELSE new[k]])
Swap(i, j) == o' = [o EXCEPT ![i] = o[j], ![j] = o[i]]
Move(i, j) == o' = [o EXCEPT ![i] = o[j], ![j] = << >>]
Push(i, b) == Set(i, Append(o[i], b))
Pop(i) == o[i] # << >> /\ Set(i, SubSeq(o[i], 1, Len(o[i]) - 1))
Cat(i, j) == Set(i, o[i] \o o[j])
Copy(i, j) == Set(i, o[j])
Flip(i) == Set(i, [k \in 1 .. Len(o[i]) |-> 1 - o[i][k]])
\* Operations on one bit: assignment, or, and, exclusive or, difference, flip.
Bit(op, a, b) == CASE op = 0 -> b
                   [] op = 1 -> IF a = 1 \/ b = 1 THEN 1 ELSE 0
                   [] op = 2 -> IF a = 1 /\ b = 1 THEN 1 ELSE 0
                   [] op = 3 -> IF a = b THEN 0 ELSE 1
                   [] op = 4 -> IF a = 1 /\ b = 0 THEN 1 ELSE 0
                   [] op = 5 -> 1 - a
Change(i, p, op, b) == Set(i, [o[i] EXCEPT ![p] = Bit(op, @, b)])
\* Operations on vectors of the same length: 0 and, 1 or, 2 exclusive or.
Op(op, i, j) == /\ Len(o[i]) = Len(o[j])
                /\ Set(i, [k \in 1 .. Len(o[i]) |-> Bit(IF op = 0 THEN 2 ELSE IF op = 1 THEN 1 ELSE 3, o[i][k], o[j][k])])
=============================================================================
