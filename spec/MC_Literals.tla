---------------------------- MODULE MC_Literals ----------------------------
(* The way IntegerLiterals.h computes: from the last digit to the first, in   *)
(* words of W values; against the number itself.                              *)
EXTENDS Integers, Sequences
CONSTANTS W, Bases, MaxLen
L == INSTANCE Literals WITH B <- W
VARIABLES base, max, value, rank, wide, over, len, true
vars == <<base, max, value, rank, wide, over, len, true>>
Init == /\ base \in Bases /\ max \in 0 .. W - 1 /\ true \in 0 .. base - 1
        /\ value = true /\ rank = 1 /\ wide = FALSE /\ over = (true > max) /\ len = 1
\* d in front of what there is
Power == base ^ len
Step(d) ==
  /\ len < MaxLen
  /\ LET r == (rank * base) % W IN
       /\ wide' = (wide \/ rank > (W - 1) \div base)
       /\ over' = (\/ over \/ d > max
                   \/ d # 0 /\ (\/ wide' \/ rank > max \div base
                                \/ d > max \div r \/ value > max - d * r))
       /\ rank' = r /\ value' = (d * r + value) % W
  /\ true' = d * Power + true /\ len' = len + 1 /\ UNCHANGED <<base, max>>
Next == \E d \in 0 .. base - 1 : Step(d)
Spec == Init /\ [][Next]_vars
Value == value = true % W
Overflow == over = (true > max)
\* The specification of values, by digits of base W, says the same.
Digits == LET n == L!MulAdd(L!MulAdd(<< >>, W, true \div W), W, true % W) IN L!At(n, 1) = value
=============================================================================
