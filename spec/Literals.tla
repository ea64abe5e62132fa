----------------------------- MODULE Literals ------------------------------
(* What an integer literal denotes.  A text is a sequence of character codes, *)
(* a number a sequence of base-B digits, the lowest first, of any length.     *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT B
Ch(c) == c
Digit(c) == IF c \in 48 .. 57 THEN c - 48
            ELSE IF c \in 97 .. 102 THEN c - 87
            ELSE IF c \in 65 .. 70 THEN c - 55 ELSE 99
\* The base of a text and where its digits begin.
Hex(s) == Len(s) > 1 /\ s[1] = 48 /\ s[2] \in {120, 88}
Bin(s) == Len(s) > 1 /\ s[1] = 48 /\ s[2] \in {98, 66}
Base(s) == IF Hex(s) THEN 16 ELSE IF Bin(s) THEN 2 ELSE IF s[1] = 48 THEN 8 ELSE 10
Body(s) == IF Hex(s) \/ Bin(s) THEN SubSeq(s, 3, Len(s)) ELSE s
\* Separators are no digits.
Digits(s) == [i \in DOMAIN SelectSeq(Body(s), LAMBDA c : c # 39)
                 |-> Digit(SelectSeq(Body(s), LAMBDA c : c # 39)[i])]
IsInteger(s) == \A i \in DOMAIN Digits(s) : Digits(s)[i] < Base(s)
\* Numbers of at least one digit; n * b + d
Carry(n, b, d) ==
  FoldLeft(LAMBDA a, x : [c |-> (x * b + a.c) \div B, s |-> Append(a.s, (x * b + a.c) % B)],
           [c |-> d, s |-> << >>], n)
Norm(n) == LET k == {i \in DOMAIN n : n[i] # 0}
           IN IF k = {} THEN << >> ELSE SubSeq(n, 1, CHOOSE i \in k : \A j \in k : j <= i)
MulAdd(n, b, d) == LET r == Carry(n, b, d) IN Norm(Append(r.s, r.c))
Value(s) == LET b == Base(s) IN FoldLeft(LAMBDA n, d : MulAdd(n, b, d), << >>, Digits(s))
At(n, i) == IF i \in DOMAIN n THEN n[i] ELSE 0
\* The lowest k digits
Low(n, k) == [i \in 1 .. k |-> At(n, i)]
\* n <= B^k - 1, or B^k / 2 - 1
Fits(n, k, signed) == Len(n) <= k /\ (signed /\ Len(n) = k => n[k] < B \div 2)
=============================================================================
