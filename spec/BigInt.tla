------------------------------- MODULE BigInt -------------------------------
(* Numbers of N bits as sequences of bytes (the lowest first), with          *)
(* arithmetic modulo 2^N: three registers of them.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
LOCAL INSTANCE Bitwise
VARIABLES n, v        \* bits; the registers
K == (n + 7) \div 8
Pow2(k) == 2 ^ k
TopMask == IF n % 8 = 0 THEN 255 ELSE Pow2(n % 8) - 1
Mask(x) == [x EXCEPT ![K] = @ % (TopMask + 1)]
\* Any sequence of bytes to K of them, modulo 2^n.
Fit(x, fill) == Mask([i \in 1 .. K |-> IF i <= Len(x) THEN x[i] ELSE fill])
Small(k) == Fit(<<k % 256, k \div 256>>, 0)
Zero == Small(0)
\* Sums of columns to bytes; what is carried out of the last is lost.
Norm(c) == FoldLeft(LAMBDA a, x : LET t == x + a.c IN [c |-> t \div 256, s |-> Append(a.s, t % 256)],
                    [c |-> 0, s |-> << >>], c).s
Add(x, y) == Mask(Norm([i \in 1 .. K |-> x[i] + y[i]]))
Inv(x) == Mask([i \in 1 .. K |-> 255 - x[i]])
Neg(x) == Add(Inv(x), Small(1))
Sub(x, y) == Add(x, Neg(y))
RECURSIVE Column(_, _, _, _)
Column(x, y, i, j) == IF j > i THEN 0 ELSE (IF j <= Len(x) /\ i - j + 1 <= Len(y) THEN x[j] * y[i - j + 1] ELSE 0) + Column(x, y, i, j + 1)
Times(x, y, k) == Norm([i \in 1 .. k |-> Column(x, y, i, 1)])
Mul(x, y) == Mask(Times(x, y, K))
\* The highest difference decides.
Highest(x, y) == CHOOSE i \in 0 .. K : (i = 0 \/ x[i] # y[i]) /\ \A j \in i + 1 .. K : x[j] = y[j]
Less(x, y) == LET i == Highest(x, y) IN i > 0 /\ x[i] < y[i]
\* Are q and r the quotient and the remainder? (Without wrapping around.)
IsDivision(x, y, q, r) ==
  /\ Less(r, y)
  /\ LET p == Times(q, y, 2 * K)
         s == Norm([i \in 1 .. 2 * K |-> p[i] + (IF i <= K THEN r[i] ELSE 0)]) IN
     \A i \in 1 .. 2 * K : s[i] = IF i <= K THEN x[i] ELSE 0
AndOf(x, y) == [i \in 1 .. K |-> x[i] & y[i]]
XorOf(x, y) == [i \in 1 .. K |-> x[i] ^^ y[i]]
OrOf(x, y) == [i \in 1 .. K |-> x[i] | y[i]]
Bit(x, i) == (x[(i \div 8) + 1] \div Pow2(i % 8)) % 2
\* As many whole bytes, then the bits left.
At(x, i) == IF i < 1 \/ i > K THEN 0 ELSE x[i]
Shl(x, s) == LET b == s \div 8  p == Pow2(s % 8) IN
  Mask([i \in 1 .. K |-> ((At(x, i - b) * p) % 256) + (At(x, i - b - 1) * p) \div 256])
Shr(x, s) == LET b == s \div 8  p == Pow2(s % 8) IN
  [i \in 1 .. K |-> (At(x, i + b) \div p) + (((At(x, i + b + 1) * 256) \div p) % 256)]
SetBit(x, i, b) == IF Bit(x, i) = b THEN x ELSE [x EXCEPT ![(i \div 8) + 1] = IF b = 1 THEN @ + Pow2(i % 8) ELSE @ - Pow2(i % 8)]
\* A number written in digits of some base.
Value(d, base) == FoldLeft(LAMBDA a, x : Norm([i \in 1 .. K + 1 |-> a[i] * base + (IF i = 1 THEN x ELSE 0)]),
                           [i \in 1 .. K + 1 |-> 0], d)
Put(d, x) == v' = [v EXCEPT ![d] = x] /\ UNCHANGED n
=============================================================================
