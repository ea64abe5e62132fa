------------------------------ MODULE Strings ------------------------------
(* String views are sequences of character codes; positions count from 0.    *)
(* Every operation is defined on the sequence, without saying how to find    *)
(* the result.  None stands for the position that is none.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -1
Error == <<-9>>      \* out of range
Min(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Least(S) == IF S = {} THEN None ELSE MinOf(S)
Greatest(S) == IF S = {} THEN None ELSE MaxOf(S)
Has(set, c) == \E k \in 1 .. Len(set) : set[k] = c
\* The part from position p (at most n characters of it).
From(s, p) == SubSeq(s, p + 1, Len(s))
Part(s, p, n) == SubSeq(s, p + 1, Min(Len(s), p + n))
Sub(s, p, n) == IF p > Len(s) THEN Error ELSE Part(s, p, Min(n, Len(s)))
Left(s, n) == IF n > Len(s) THEN Error ELSE SubSeq(s, 1, n)
Right(s, n) == IF n > Len(s) THEN Error ELSE From(s, Len(s) - n)
LeftClipped(s, n) == IF n > Len(s) THEN Error ELSE From(s, n)
RightClipped(s, n) == IF n > Len(s) THEN Error ELSE SubSeq(s, 1, Len(s) - n)
Clipped(s, a, b) == IF a > Len(s) \/ b > Len(s) - a THEN Error ELSE SubSeq(s, a + 1, Len(s) - b)
At(s, p) == IF p >= Len(s) THEN Error ELSE <<s[p + 1]>>
Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
\* Where t occurs in s.
Occurs(s, t) == {p \in 0 .. Len(s) - Len(t) : \A k \in 1 .. Len(t) : s[p + k] = t[k]}
Find(s, t, p) == Least({q \in Occurs(s, t) : q >= p})
RFind(s, t, p) == Greatest({q \in Occurs(s, t) : q <= p})
Starts(s, t) == 0 \in Occurs(s, t)
Ends(s, t) == (Len(s) - Len(t)) \in Occurs(s, t)
\* Where the characters of a set, or others, are.
Where(s, set, in) == {p \in 0 .. Len(s) - 1 : Has(set, s[p + 1]) = in}
First(s, set, in, p) == Least({q \in Where(s, set, in) : q >= p})
Last(s, set, in, p) == Greatest({q \in Where(s, set, in) : q <= p})
LTrim(s, set) == LET w == Where(s, set, FALSE) IN IF w = {} THEN << >> ELSE From(s, MinOf(w))
RTrim(s, set) == LET w == Where(s, set, FALSE) IN IF w = {} THEN << >> ELSE SubSeq(s, 1, MaxOf(w) + 1)
Trim(s, set) == LTrim(RTrim(s, set), set)
\* Lexicographic order: decided by the first difference, else by length.
Differ(s, t) == {k \in 1 .. Min(Len(s), Len(t)) : s[k] # t[k]}
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Compare(s, t) == LET d == Differ(s, t) IN
                 IF d = {} THEN Sign(Len(s) - Len(t)) ELSE Sign(s[MinOf(d)] - t[MinOf(d)])
CompareParts(s, p, n, t, p2, n2) ==
  IF p > Len(s) \/ p2 > Len(t) THEN Error ELSE <<Compare(Sub(s, p, n), Sub(t, p2, n2))>>
\* The pieces between delimiters.
RECURSIVE Cuts(_, _, _)
Cuts(s, w, a) == LET d == {q \in w : q >= a} IN
                 IF d = {} THEN <<From(s, a)>>
                 ELSE <<SubSeq(s, a + 1, MinOf(d))>> \o Cuts(s, w, MinOf(d) + 1)
Split(s, set) == Cuts(s, Where(s, set, TRUE), 0)
NotEmpty(x) == x # << >>
SplitSome(s, set) == SelectSeq(Split(s, set), NotEmpty)
\* Output padded with dots to width w, at the end if left.
Padded(s, w, left) == LET f == [k \in 1 .. (IF w > Len(s) THEN w - Len(s) ELSE 0) |-> 46] IN
                      IF left THEN s \o f ELSE f \o s
RECURSIVE Concat(_)
Concat(ps) == IF ps = << >> THEN << >> ELSE Head(ps) \o Concat(Tail(ps))
=============================================================================
