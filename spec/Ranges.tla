------------------------------- MODULE Ranges -------------------------------
(* Ranges are sequences seen through iterators.  What is read of them, what   *)
(* reversed ranges and reference vectors show and what comparison answers are *)
(* functions of the sequences alone, whatever kinds of ranges show them.      *)
(* Comparison is also given step by step, as it must be done when the ends of *)
(* the ranges are known (measured) or found on the way, never reading beyond. *)
EXTENDS Naturals, Sequences
VARIABLES a, b, measured, i, j, left, res
Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
Equal(x, y) == Len(x) = Len(y) /\ \A k \in 1 .. Len(x) : x[k] = y[k]
\* Writing the elements of w, in order, through a reversed range.
Written(w) == Rev(w)
\* Whole elements of n bytes each in a memory of m bytes.
Whole(m, n) == m \div n
Elements(mem, n) == SubSeq(mem, 1, n * Whole(Len(mem), n))
PutElement(mem, n, at, bytes) == [k \in 1 .. Len(mem) |-> IF k > n * at /\ k <= n * (at + 1) THEN bytes[k - n * at] ELSE mem[k]]

\* The comparison, step by step: measured is which of the ranges know their
\* lengths; i and j count the elements passed, left those of a measured range.
vars == <<a, b, measured, i, j, left, res>>
EndA == i = Len(a)
EndB == j = Len(b)
Answer(r) == res' = r /\ UNCHANGED <<a, b, measured, i, j, left>>
Same == a[i + 1] = b[j + 1]
Step == i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<a, b, measured, res>>
Start(x, y, m) ==
  /\ a = x /\ b = y /\ measured = m /\ i = 0 /\ j = 0 /\ res = "unknown"
  /\ left = IF "a" \in m THEN Len(x) ELSE IF "b" \in m THEN Len(y) ELSE 0
Walk ==
  /\ res = "unknown" /\ measured = {}
  /\ IF EndA THEN Answer(IF EndB THEN "equal" ELSE "different")
     ELSE IF EndB THEN Answer("different")
     ELSE IF Same THEN Step /\ UNCHANGED left ELSE Answer("different")
\* One is measured, the end of the other is found on the way.
EndOther == IF "a" \in measured THEN EndB ELSE EndA
Count ==
  /\ res = "unknown" /\ measured \in {{"a"}, {"b"}}
  /\ IF EndOther THEN Answer(IF left = 0 THEN "equal" ELSE "different")
     ELSE IF left = 0 THEN Answer("different")
     ELSE IF Same THEN Step /\ left' = left - 1 ELSE Answer("different")
Both ==
  /\ res = "unknown" /\ measured = {"a", "b"}
  /\ IF Len(a) # Len(b) THEN Answer("different")
     ELSE IF left = 0 THEN Answer("equal")
     ELSE IF Same THEN Step /\ left' = left - 1 ELSE Answer("different")
Compare == Walk \/ Count \/ Both
=============================================================================
