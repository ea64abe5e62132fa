--------------------------- MODULE MC_Exceptions ----------------------------
(* Chains of up to N exceptions thrown while others are handled: every        *)
(* exception that can be nested appears once, in order, and throwing all at   *)
(* once is throwing one by one.                                               *)
EXTENDS Naturals, Sequences
CONSTANTS N, Plain, Flat, Own
All == Plain \cup Flat \cup Own
CN(e) == e \notin Flat
HO(e) == e \in Own
X == INSTANCE Exceptions WITH CanNest <- CN, HasOwn <- HO
VARIABLES cur, thrown
vars == <<cur, thrown>>
Init == cur = << >> /\ thrown = << >>
Next == \E e \in All : Len(thrown) < N /\ cur' = X!NestOn(e, << >>, cur) /\ thrown' = Append(thrown, e)
Spec == Init /\ [][Next]_vars
Together == cur = X!ThrowWithNested(thrown, << >>, << >>)
                /\ (thrown # << >> => cur = X!ThrowNested(thrown, << >>))
\* The last of those thrown, back to the last that could not be nested.
Suffix == \E k \in 0 .. Len(thrown) :
  /\ cur = [i \in 1 .. k |-> thrown[Len(thrown) + 1 - i]]
  /\ (k < Len(thrown) => k > 0 /\ (cur[k] \in Flat \cup Own))
  /\ \A i \in 1 .. (k - 1) : cur[i] \in Plain
=============================================================================
