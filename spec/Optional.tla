------------------------------ MODULE Optional ------------------------------
(* Optionals hold a value or nothing (0).  Operations on elements may throw,  *)
(* before they change anything.  MOVED is what is left of a value moved from. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MOVED == 99
VARIABLES o,        \* optional -> value or 0
          moves     \* whether moving leaves MOVED behind (or is copying)
ov == <<o, moves>>
Slots == DOMAIN o
Left(v) == IF v # 0 /\ moves THEN MOVED ELSE v
Put(i, v) == o' = [o EXCEPT ![i] = v] /\ UNCHANGED moves
Same == UNCHANGED ov
\* A failure to make the new value leaves nothing, the old one is gone already.
Emplace(i, v, thrown) == Put(i, IF thrown THEN 0 ELSE v)
\* All others leave everything as it was when they fail.
Assign(i, v, thrown) == IF thrown THEN Same ELSE Put(i, v)
Copy(i, j, thrown) == Assign(i, o[j], thrown)
Move(i, j, thrown) == IF thrown THEN Same
                      ELSE o' = [o EXCEPT ![i] = o[j], ![j] = Left(o[j])] /\ UNCHANGED moves
\* ... but swapping two values takes several moves, and an element throwing in
\* the middle leaves two elements of unspecified values.
Swap(i, j, thrown) ==
  /\ UNCHANGED moves
  /\ IF ~ thrown THEN o' = [o EXCEPT ![i] = o[j], ![j] = o[i]]
     ELSE IF o[i] = 0 \/ o[j] = 0 THEN o' = o
     ELSE \E a, b \in {o[i], o[j], MOVED} : o' = [o EXCEPT ![i] = a, ![j] = b]
Take(i, thrown) == IF thrown THEN Same ELSE Put(i, Left(o[i]))
\* An empty optional is less than every full one.
Bits(lt, eq) == LET b(x, n) == IF x THEN n ELSE 0 IN
  b(eq, 1) + b(~ eq, 2) + b(lt, 4) + b(lt \/ eq, 8) + b(~ lt /\ ~ eq, 16) + b(~ lt, 32)
Compare(a, b) == Bits(a < b, a = b)   \* (values are positive)
Full == Cardinality({i \in Slots : o[i] # 0})
=============================================================================
