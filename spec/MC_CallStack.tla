---------------------------- MODULE MC_CallStack ----------------------------
(* Contexts nest like calls: what a thread sees is what it entered itself,    *)
(* unwinding leaves exactly what was entered since.                           *)
EXTENDS CallStack, FiniteSets, TLC
CONSTANTS T, N, K, D
VARIABLES calls             \* per thread, the stacks entered, and the depths to unwind to
vars == <<st, calls>>
Init == st = [t \in T |-> [n \in N |-> << >>]] /\ calls = [t \in T |-> << >>]
Depth(t) == Len(calls[t])
In(t, n, k) == Depth(t) < D /\ Enter(t, n, k, 0) /\ calls' = [calls EXCEPT ![t] = Append(@, n)]
Out(t) == Depth(t) > 0 /\ Leave(t, calls[t][Depth(t)]) /\ calls' = [calls EXCEPT ![t] = SubSeq(@, 1, Depth(t) - 1)]
Count(t, n, d) == Cardinality({i \in 1 .. d : calls[t][i] = n})
Unwind(t) == \E d \in 0 .. Depth(t) - 1 :
  /\ calls' = [calls EXCEPT ![t] = SubSeq(@, 1, d)]
  /\ st' = [st EXCEPT ![t] = [n \in N |-> SubSeq(@[n], Len(@[n]) - Count(t, n, d) + 1, Len(@[n]))]]
Next == \E t \in T : (\E n \in N, k \in K : In(t, n, k)) \/ Out(t) \/ Unwind(t)
Spec == Init /\ [][Next]_vars
Nested == \A t \in T, n \in N : Len(st[t][n]) = Count(t, n, Depth(t))
Found == \A t \in T, n \in N, k \in K : LET i == Find(t, n, k) IN
   IF i = 0 THEN \A j \in 1 .. Len(st[t][n]) : st[t][n][j][1] # k ELSE st[t][n][i][1] = k
Private == [][Cardinality({t \in T : st'[t] # st[t]}) <= 1]_vars
=============================================================================
