------------------------------ MODULE MC_BigInt ------------------------------
(* The block-wise algorithms, for all operands: numbers of N bits in blocks   *)
(* of W bits, the bits of the last block beyond N kept at zero, each block    *)
(* computed modulo 2^W.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, W
B == 2 ^ W
K == (N + W - 1) \div W
M == 2 ^ N
LastMod == 2 ^ (N - W * (K - 1))
Blocks == [0 .. K - 1 -> 0 .. B - 1]
VARIABLES x, y       \* the operands, all of them
vars == <<x, y>>
RECURSIVE Val(_, _)
Val(a, i) == IF i = K THEN 0 ELSE a[i] * (B ^ i) + Val(a, i + 1)
Num(a) == Val(a, 0)
Clear(a) == [a EXCEPT ![K - 1] = @ % LastMod]
Nums == {a \in Blocks : Clear(a) = a}
Of(k) == [i \in 0 .. K - 1 |-> (k \div (B ^ i)) % B]
Init == x \in Nums /\ y \in Nums
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Min2(a, b) == IF a < b THEN a ELSE b
Bit(b) == IF b THEN 1 ELSE 0
\* The carry out is known from the sum being smaller than either operand.
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) == IF i = K THEN << >> ELSE
  LET t == (a[i] + b[i] + c) % B  m == Min2(a[i], b[i]) IN
  <<t>> \o AddFrom(a, b, i + 1, Bit(t < m \/ (c = 1 /\ t = m)))
Seq0(s) == [i \in 0 .. K - 1 |-> s[i + 1]]
Add(a, b) == Clear(Seq0(AddFrom(a, b, 0, 0)))
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) == IF i = K THEN << >> ELSE
  LET t == (a[i] + B - c) % B IN
  <<(t + B - b[i]) % B>> \o SubFrom(a, b, i + 1, Bit(b[i] > t \/ (c = 1 /\ a[i] = 0)))
Sub(a, b) == Clear(Seq0(SubFrom(a, b, 0, 0)))
RECURSIVE IncFrom(_, _, _)
IncFrom(a, i, c) == IF i = K THEN << >> ELSE LET t == (a[i] + c) % B IN <<t>> \o IncFrom(a, i + 1, IF t < c THEN 1 ELSE 0)
Inc(a) == Clear(Seq0(IncFrom(a, 0, 1)))
RECURSIVE DecFrom(_, _, _)
DecFrom(a, i, c) == IF i = K THEN << >> ELSE <<(a[i] + B - c) % B>> \o DecFrom(a, i + 1, Bit(c > a[i]))
Dec(a) == Clear(Seq0(DecFrom(a, 0, 1)))
Shifted(a, k) == [i \in 0 .. K - 1 |-> IF i - k < 0 \/ i - k >= K THEN 0 ELSE a[i - k]]
\* Column by column, the carry a number of as many blocks, kept modulo 2^N.
RECURSIVE Columns(_, _, _, _), Carry(_, _, _, _, _)
Carry(a, b, i, j, c) == IF j > i THEN c ELSE
  LET p == a[j] * b[i - j]
      t == [Clear(Shifted(Of((p \div B) % M), 1)) EXCEPT ![0] = p % B] IN
  Carry(a, b, i, j + 1, Add(c, t))
Columns(a, b, i, c) == IF i = K THEN << >> ELSE
  LET d == Carry(a, b, i, 0, c) IN <<d[0]>> \o Columns(a, b, i + 1, Shifted(d, -1))
Mul(a, b) == IF K = 1 THEN Clear([i \in {0} |-> (a[0] * b[0]) % B]) ELSE Clear(Seq0(Columns(a, b, 0, Of(0))))
Shl(a, s) == LET k == s \div W  r == s % W IN
  IF r = 0 THEN Clear(Shifted(a, k))
  ELSE Clear([i \in 0 .. K - 1 |-> IF i < k THEN 0 ELSE IF i = k THEN (a[0] * 2 ^ r) % B
              ELSE ((a[i - k] * 2 ^ r) % B) + a[i - k - 1] \div 2 ^ (W - r)])
Shr(a, s) == LET k == s \div W  r == s % W  keep == K - k - 1 IN
  IF r = 0 THEN Shifted(a, -k)
  ELSE Clear([i \in 0 .. K - 1 |-> IF i < keep THEN (a[i + k] \div 2 ^ r) + ((a[i + k + 1] * 2 ^ (W - r)) % B)
              ELSE IF i = keep THEN a[K - 1] \div 2 ^ r ELSE 0])
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i < 0 THEN FALSE ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE LessFrom(a, b, i - 1)
Less(a, b) == LessFrom(a, b, K - 1)
\* Bit by bit from the highest, the remainder doubled modulo 2^N.
BitAt(a, i) == (a[i \div W] \div 2 ^ (i % W)) % 2
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) == IF i < 0 THEN <<q, r>> ELSE
  LET d == IF N > 1 THEN Shl(r, 1) ELSE r
      e == IF BitAt(a, i) = 1 /\ d[0] % 2 = 0 THEN [d EXCEPT ![0] = @ + 1] ELSE d IN
  IF ~ Less(e, b) THEN DivFrom(a, b, i - 1, [q EXCEPT ![i \div W] = @ + 2 ^ (i % W)], Sub(e, b))
  ELSE DivFrom(a, b, i - 1, q, e)
Div(a, b) == DivFrom(a, b, N - 1, Of(0), Of(0))
Sums == Num(Add(x, y)) = (Num(x) + Num(y)) % M /\ Num(Sub(x, y)) = (Num(x) + M - Num(y)) % M
Steps == Num(Inc(x)) = (Num(x) + 1) % M /\ Num(Dec(x)) = (Num(x) + M - 1) % M
Products == Num(Mul(x, y)) = (Num(x) * Num(y)) % M
Quotients == Num(y) # 0 => LET d == Div(x, y) IN Num(d[1]) = Num(x) \div Num(y) /\ Num(d[2]) = Num(x) % Num(y)
Shifts == Num(y) < N => Num(Shl(x, Num(y))) = (Num(x) * 2 ^ Num(y)) % M /\ Num(Shr(x, Num(y))) = Num(x) \div 2 ^ Num(y)
Order == Less(x, y) = (Num(x) < Num(y))
=============================================================================
