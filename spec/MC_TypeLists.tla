--------------------------- MODULE MC_TypeLists ----------------------------
(* The recursions of the headers, one element at a time, against the lists.   *)
EXTENDS Integers, Sequences
CONSTANTS Elems, MaxLen
L == INSTANCE TypeLists
VARIABLES todo, kept, dropped, count, all, any, common, still, x
vars == <<todo, kept, dropped, count, all, any, common, still, x>>
Lists == UNION {[1 .. n -> Elems] : n \in 0 .. MaxLen}
Odd(e) == e % 2 = 1
Init == /\ todo \in {[s |-> s, t |-> t, t0 |-> t, done |-> << >>] : s \in Lists, t \in Lists}
        /\ x \in Elems /\ kept = << >> /\ dropped = << >> /\ count = 0
        /\ all = TRUE /\ any = FALSE /\ common = << >> /\ still = TRUE
Next == /\ todo.s # << >>
        /\ LET e == Head(todo.s)
               same == still /\ todo.t # << >> /\ Head(todo.t) = e IN
             /\ kept' = IF Odd(e) THEN Append(kept, e) ELSE kept
             /\ dropped' = IF Odd(e) THEN dropped ELSE Append(dropped, e)
             /\ count' = count + (IF e = x THEN 1 ELSE 0)
             /\ all' = (all /\ Odd(e)) /\ any' = (any \/ Odd(e))
             /\ common' = IF same THEN Append(common, e) ELSE common
             /\ still' = same
             /\ todo' = [s |-> Tail(todo.s), done |-> Append(todo.done, e), t0 |-> todo.t0,
                         t |-> IF todo.t = << >> THEN << >> ELSE Tail(todo.t)]
             /\ x' = x
Spec == Init /\ [][Next]_vars
Agree == LET d == todo.done IN
  /\ kept = L!Keep(Odd, d) /\ dropped = L!Drop(Odd, d) /\ count = L!Count(x, d)
  /\ all = (kept = d) /\ any = (kept # << >>)
  /\ Len(kept) + Len(dropped) = Len(d)
  /\ \A i \in DOMAIN d : ~Odd(d[i]) => dropped[L!PlaceWithout(Odd, i - 1, d) + 1] = d[i]
  /\ common = L!Common(<<d, todo.t0>>) /\ common = L!Common(<<todo.t0, d, todo.t0>>)
  /\ L!Sub(0, Len(common), d \o todo.s) = common
=============================================================================
