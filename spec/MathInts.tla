------------------------------ MODULE MathInts ------------------------------
(* Integers of fixed widths, as a sign and the digits of a magnitude (least   *)
(* significant first), and what comparing and converting them must give       *)
(* whatever the widths and signs of their types.  Base: of the digits.  A     *)
(* number is <<sign, digit, digit, ...>>, with D digits; zero has sign 0.     *)
EXTENDS Integers, Sequences
CONSTANTS Base, D
Neg(x) == x[1] = 1
Digit(x, k) == x[k + 1]
Zero(x) == \A k \in 1 .. D : Digit(x, k) = 0
Number(x) == Len(x) = D + 1 /\ x[1] \in {0, 1} /\ (\A k \in 1 .. D : Digit(x, k) \in 0 .. (Base - 1)) /\ (Zero(x) => ~Neg(x))
\* Comparing magnitudes from digit k down.
RECURSIVE LessMag(_, _, _)
LessMag(x, y, k) == IF k = 0 THEN FALSE
                    ELSE IF Digit(x, k) # Digit(y, k) THEN Digit(x, k) < Digit(y, k)
                    ELSE LessMag(x, y, k - 1)
Less(x, y) == IF Neg(x) # Neg(y) THEN Neg(x)
              ELSE IF Neg(x) THEN LessMag(y, x, D) ELSE LessMag(x, y, D)
Greatest(S, x) == x \in S /\ \A y \in S : ~Less(x, y)
Least(S, x) == x \in S /\ \A y \in S : ~Less(y, x)
\* Base^n - x, 0 < x <= Base^n: the first nonzero digit is complemented to Base,
\* those above it to Base - 1.
Complement(x, n) ==
  LET f == CHOOSE k \in 1 .. n : Digit(x, k) # 0 /\ \A m \in 1 .. (k - 1) : Digit(x, m) = 0 IN
  [k \in 1 .. (D + 1) |-> IF k = 1 \/ k > n + 1 \/ k - 1 < f THEN 0
                          ELSE IF k - 1 = f THEN Base - x[k] ELSE Base - 1 - x[k]]
Abs(x) == [x EXCEPT ![1] = 0]
\* x modulo Base^n, among unsigned and signed numbers of n digits.
ToUnsigned(x, n) == IF Neg(x) THEN Complement(Abs(x), n) ELSE x
Half(x, n) == Digit(x, n) >= Base \div 2
ToSigned(x, n) == IF ~Neg(x) /\ Half(x, n) THEN [Complement(x, n) EXCEPT ![1] = 1] ELSE x
\* Powers of two: one digit is one, the others are zero (Base is one itself).
Powers2 == {2 ^ k : k \in 0 .. 15}
PowerOfTwo(x) == ~Neg(x) /\ \E k \in 1 .. D : Digit(x, k) \in Powers2 /\ \A m \in (1 .. D) \ {k} : Digit(x, m) = 0
=============================================================================
