----------------------------- MODULE MC_Ranges -----------------------------
(* Every pair of sequences, whichever are measured: the steps end, with the   *)
(* right answer, and read nothing beyond the end of either.                   *)
EXTENDS Ranges, TLC
CONSTANTS V, N
Contents == UNION {[1 .. n -> V] : n \in 0 .. N}
Init == \E x, y \in Contents, m \in SUBSET {"a", "b"} : Start(x, y, m)
Next == Compare
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Within == i <= Len(a) /\ j <= Len(b) /\ i = j
Right == /\ res = "equal" => Equal(a, b)
         /\ res = "different" => ~Equal(a, b)
Symmetric == Equal(a, b) <=> Equal(b, a)
Reversal == Rev(Rev(a)) = a /\ (Equal(Rev(a), Rev(b)) <=> Equal(a, b))
Ends == <>(res # "unknown")
=============================================================================
