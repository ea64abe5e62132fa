--------------------------- MODULE IdentifierPool ---------------------------
(* Pools of unique identifiers.  A pool hands out identifiers; a holder (in  *)
(* a slot of the user) owns one until it is released, destroyed, overwritten *)
(* or moved from.  Pools are independent and may die before their holders.   *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Ids, Pools
VARIABLES hold  \* partial function: slot -> <<pool, id>>, the owning holders

Reserved(p) == {hold[s][2] : s \in {x \in DOMAIN hold : hold[x][1] = p}}
Without(s) == [x \in DOMAIN hold \ {s} |-> hold[x]]

Init == hold = << >>

\* A reservation yields any identifier nobody holds ...
ReserveIn(space, s, p, i) ==
  /\ s \notin DOMAIN hold
  /\ i \in space /\ i \notin Reserved(p)
  /\ hold' = hold @@ (s :> <<p, i>>)
Reserve(s, p, i) == ReserveIn(Ids, s, p, i)
\* ... and fails only if every identifier is held.
Exhausted(p) == Ids \subseteq Reserved(p) /\ UNCHANGED hold
\* A pool with n identifiers has been used up: all of them were given, once.
UsedUp(n, given, distinct, largest) ==
  given = n /\ distinct = n /\ largest = n - 1 /\ UNCHANGED hold
\* Release, destruction; harmless on a holder owning nothing.
Release(s) == hold' = Without(s)
\* Move construction/assignment: the target's own identifier is given back.
Move(d, s) ==
  /\ d # s
  /\ hold' = IF s \in DOMAIN hold
             THEN (d :> hold[s]) @@ [x \in DOMAIN hold \ {s, d} |-> hold[x]]
             ELSE Without(d)
\* Moved onto itself it holds what it did, or nothing.
MoveSelf(s) == hold' \in {hold, Without(s)}
\* What a holder answers about itself.
Query(s, valid, i) ==
  /\ valid = (IF s \in DOMAIN hold THEN 1 ELSE 0)
  /\ valid = 1 => i = hold[s][2]
  /\ UNCHANGED hold

Unique == Cardinality({hold[s] : s \in DOMAIN hold}) = Cardinality(DOMAIN hold)
InRange == \A s \in DOMAIN hold : hold[s][2] \in Ids
=============================================================================
