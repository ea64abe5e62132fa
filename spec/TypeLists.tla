----------------------------- MODULE TypeLists -----------------------------
(* What the compile-time operations on lists give.  A list is a sequence; a   *)
(* pattern of a template's instance is the template and the list.             *)
EXTENDS Integers, Sequences, SequencesExt
Keep(P(_), s) == SelectSeq(s, P)
Drop(P(_), s) == SelectSeq(s, LAMBDA x : ~P(x))
Count(x, s) == Len(SelectSeq(s, LAMBDA y : y = x))
Sub(from, n, s) == SubSeq(s, from + 1, from + n)
SubOk(from, n, s) == from + n <= Len(s)
\* Only the first list decides how long a prefix can be.
Common2(a, b) ==
  LET k == {i \in 0 .. Len(a) : i <= Len(b) /\ SubSeq(a, 1, i) = SubSeq(b, 1, i)}
  IN SubSeq(a, 1, CHOOSE i \in k : \A j \in k : j <= i)
Common(lists) ==
  IF lists = << >> THEN << >> ELSE FoldLeft(Common2, Head(lists), Tail(lists))
Join(lists) == FoldLeft(LAMBDA a, b : a \o b, << >>, lists)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* The place of element i (from 0) in s without those of P.
PlaceWithout(P(_), i, s) == Len(Drop(P, SubSeq(s, 1, i)))
=============================================================================
