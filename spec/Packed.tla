------------------------------- MODULE Packed -------------------------------
(* Packed structures: each is a sequence of fields, each field a sequence of *)
(* bytes, and what is in memory is these one after another and nothing else. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES f, there    \* the fields of each structure; whether it has any
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE Head(s) + Sum(Tail(s))
Widths(x) == [k \in 1 .. Len(x) |-> Len(x[k])]
\* Fields counted from 0.
Offset(w, k) == Sum(SubSeq(w, 1, k))
Offsets(w) == [k \in 1 .. Len(w) |-> Offset(w, k - 1)]
RECURSIVE Flat(_)
Flat(x) == IF x = << >> THEN << >> ELSE Head(x) \o Flat(Tail(x))
\* Bytes taken apart again.
Cut(b, w) == [k \in 1 .. Len(w) |-> SubSeq(b, Offset(w, k - 1) + 1, Offset(w, k))]
\* v over x from its byte e on.
Over(x, e, v) == [k \in 1 .. Len(x) |-> IF k > e /\ k <= e + Len(v) THEN v[k - e] ELSE x[k]]
New(i, x) == f' = [f EXCEPT ![i] = x] /\ there' = [there EXCEPT ![i] = TRUE]
Set(i, k, e, v) == f' = [f EXCEPT ![i] = [@ EXCEPT ![k + 1] = Over(@, e, v)]] /\ UNCHANGED there
Get(i, k, e, n) == SubSeq(f[i][k + 1], e + 1, e + n)
Copy(i, j) == New(i, f[j])
Move(i, j) == f' = [f EXCEPT ![i] = f[j]] /\ there' = [there EXCEPT ![i] = TRUE, ![j] = FALSE]
Out(i) == there' = [there EXCEPT ![i] = FALSE] /\ UNCHANGED f
Same == UNCHANGED <<f, there>>
=============================================================================
