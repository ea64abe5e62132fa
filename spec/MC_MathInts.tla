---------------------------- MODULE MC_MathInts -----------------------------
(* The definitions by digits against arithmetic, for every pair of numbers;   *)
(* and the comparison of signed and unsigned numbers by conversion.           *)
EXTENDS MathInts
RECURSIVE Mag(_, _)
Mag(x, k) == IF k = 0 THEN 0 ELSE Digit(x, k) * Base ^ (k - 1) + Mag(x, k - 1)
Val(x) == IF Neg(x) THEN 0 - Mag(x, D) ELSE Mag(x, D)
Numbers == {x \in [1 .. (D + 1) -> 0 .. (Base - 1)] : Number(x)}
M(n) == Base ^ n
Unsigned(n) == {x \in Numbers : Val(x) >= 0 /\ Val(x) < M(n)}
Signed(n) == {x \in Numbers : Val(x) >= 0 - (M(n) \div 2) /\ Val(x) < M(n) \div 2}
VARIABLES x, y
Init == x \in Numbers /\ y \in Numbers
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Order == /\ Less(x, y) <=> Val(x) < Val(y)
         /\ (x = y) <=> Val(x) = Val(y)
         /\ Greatest({x, y}, x) <=> Val(x) >= Val(y)
         /\ Least({x, y}, x) <=> Val(x) <= Val(y)
Conversion == \A n \in 1 .. D :
  /\ x \in Signed(n) => /\ Number(ToUnsigned(x, n)) /\ Val(ToUnsigned(x, n)) = Val(x) % M(n)
                        /\ ToSigned(ToUnsigned(x, n), n) = x
  /\ x \in Unsigned(n) => /\ Number(ToSigned(x, n)) /\ ToSigned(x, n) \in Signed(n)
                          /\ Val(ToSigned(x, n)) % M(n) = Val(x)
                          /\ ToUnsigned(ToSigned(x, n), n) = x
\* How the types of different signs can be compared at all.
Mixed == \A n \in 1 .. D : x \in Signed(n) =>
  (Less(x, y) <=> IF Neg(x) THEN Less(x, y) ELSE Less(ToUnsigned(x, n), y))
Powers == PowerOfTwo(x) <=> \E k \in 0 .. 20 : Val(x) = 2 ^ k
=============================================================================
