------------------------------ MODULE Messages ------------------------------
(* Messages being written (o) and one being read (in, from position pos).    *)
(* Bytes are 0 .. Base - 1; numbers are written with the lowest digit first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Base
VARIABLES o, in, pos
Min(a, b) == IF a < b THEN a ELSE b
Huge == 1000000
\* The number a sequence of digits means; Huge for all that are out of reach.
RECURSIVE Number(_)
Number(d) == IF d = << >> THEN 0
             ELSE LET h == Number(Tail(d)) IN IF h * Base + Head(d) >= Huge THEN Huge ELSE h * Base + Head(d)
RECURSIVE Digits(_, _)
Digits(x, n) == IF n = 0 THEN << >> ELSE <<x % Base>> \o Digits(x \div Base, n - 1)
Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]

(* Writing appends; a write that fails changes nothing.                      *)
Write(i, x) == o' = [o EXCEPT ![i] = @ \o x] /\ UNCHANGED <<in, pos>>
\* What is appended: the object, one byte for a truth value, a size, a size
\* of `width' digits before the elements, the bytes of another message.
Sized(width, n, x) == Digits(n, width) \o x

(* Reading.  Each read is [ok, value, by]: it succeeds with a value and      *)
(* moves on by so many bytes, or fails and leaves all as it is.              *)
Left == Len(in) - pos
Slice(p, n) == SubSeq(in, p + 1, p + n)
Fail == [ok |-> FALSE, value |-> << >>, by |-> 0]
Take(n) == IF n > Left THEN Fail ELSE [ok |-> TRUE, value |-> Slice(pos, n), by |-> n]
TakeBool == IF Left >= 1 /\ in[pos + 1] \in {0, 1} THEN Take(1) ELSE Fail
\* A size of w digits into a type of k digits: it may not fit.
Fits(w, k) == \A d \in k + 1 .. w : in[pos + d] = 0
Resized(d, k) == [i \in 1 .. k |-> IF i <= Len(d) THEN d[i] ELSE 0]
TakeSize(w, k) == IF w > Left \/ ~ Fits(w, k) THEN Fail
                  ELSE [ok |-> TRUE, value |-> Resized(Slice(pos, w), k), by |-> w]
TakeString(w) == IF w > Left THEN Fail
                 ELSE LET n == Number(Slice(pos, w)) IN
                      IF n > Left - w THEN Fail ELSE [ok |-> TRUE, value |-> Slice(pos + w, n), by |-> w + n]
Read(r) == pos' = pos + r.by /\ UNCHANGED <<o, in>>
Open(x) == in' = x /\ pos' = 0 /\ UNCHANGED o
Seek(p) == (IF p < Len(in) THEN pos' = p ELSE pos' = pos) /\ UNCHANGED <<o, in>>
Same == UNCHANGED <<o, in, pos>>
=============================================================================
