------------------------------ MODULE MC_Packed ------------------------------
(* How packed structures are kept: one block of memory each, the kinds of    *)
(* fields known beforehand, the sizes of the dynamic fields only as sums of  *)
(* the sizes of all dynamic fields so far. What is in the memory is always   *)
(* the fields one after another, with operations on either kept in step.     *)
EXTENDS Packed
CONSTANTS N, MaxW, Byte   \* fields; the largest width; what bytes may be
VARIABLES kind, mem, acc
vars == <<f, there, kind, mem, acc>>
\* The kind of a field: its width, or 0 for dynamic fields.
Kinds == [1 .. N -> 0 .. MaxW]
Two == {0, 1}
DynUpto(k) == Cardinality({j \in 1 .. k : kind[j] = 0})
Static(k) == Sum([j \in 1 .. k |-> kind[j]])
RECURSIVE Accum(_, _)
Accum(s, n) == IF s = << >> THEN << >> ELSE <<n + Head(s)>> \o Accum(Tail(s), n + Head(s))
\* The offset of the field after the first k, from the sums a.
At(a, k) == Static(k) + (IF DynUpto(k) = 0 THEN 0 ELSE a[DynUpto(k)])
SizeOf(a) == At(a, N)
Dyn(w) == SelectSeq([j \in 1 .. N |-> <<j, w[j]>>], LAMBDA p : kind[p[1]] = 0)
Sizes(w) == [j \in 1 .. Len(Dyn(w)) |-> Dyn(w)[j][2]]
Widthss == {w \in [1 .. N -> 0 .. MaxW] : \A k \in 1 .. N : kind[k] # 0 => w[k] = kind[k]}
Init == /\ kind \in Kinds /\ there = [i \in Two |-> FALSE] /\ f = [i \in Two |-> << >>]
        /\ mem = [i \in Two |-> << >>] /\ acc = [i \in Two |-> << >>]
Zeros(n) == [j \in 1 .. n |-> 0]
Make == \E i \in Two, w \in Widthss :
  /\ New(i, [j \in 1 .. N |-> Zeros(w[j])])
  /\ acc' = [acc EXCEPT ![i] = Accum(Sizes(w), 0)]
  /\ mem' = [mem EXCEPT ![i] = Zeros(SizeOf(acc'[i]))]
Put == \E i \in Two, k \in 0 .. N - 1, b \in Byte :
  /\ there[i] /\ Len(f[i]) = N
  /\ \E e \in 0 .. Len(f[i][k + 1]) - 1 :
       /\ Set(i, k, e, <<b>>)
       /\ mem' = [mem EXCEPT ![i][At(acc[i], k) + e + 1] = b]
  /\ UNCHANGED acc
CopyOver == \E i \in Two, j \in Two : there[j] /\ Copy(i, j) /\ mem' = [mem EXCEPT ![i] = mem[j]] /\ acc' = [acc EXCEPT ![i] = acc[j]]
MoveOver == \E i \in Two, j \in Two : /\ there[j] /\ i # j /\ Move(i, j)
                                      /\ mem' = [mem EXCEPT ![i] = mem[j], ![j] = << >>] /\ acc' = [acc EXCEPT ![i] = acc[j]]
Take == \E i \in Two : there[i] /\ Out(i) /\ mem' = [mem EXCEPT ![i] = << >>] /\ UNCHANGED acc
Next == (Make \/ Put \/ CopyOver \/ MoveOver \/ Take) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
W(i) == Widths(f[i])
Contiguous == \A i \in Two : there[i] => mem[i] = Flat(f[i]) /\ Cut(mem[i], W(i)) = f[i]
Sums == \A i \in Two : there[i] => SizeOf(acc[i]) = Sum(W(i)) /\ \A k \in 0 .. N - 1 : At(acc[i], k) = Offset(W(i), k)
Disjoint == \A i \in Two : there[i] => \A j, k \in 0 .. N - 1 : j < k => At(acc[i], j) + W(i)[j + 1] <= At(acc[i], k)
=============================================================================
