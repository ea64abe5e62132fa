----------------------------- MODULE MC_FlagSet -----------------------------
(* The algebra the flag operations must obey, over all values and arguments.  *)
EXTENDS Naturals, FiniteSets
VARIABLES fs, last, arg, old
All == 0 .. 3
F == INSTANCE FlagSet
Ops == {"store", "set", "unset", "toggle", "and"}
Init == F!Init /\ last = "store" /\ arg = {} /\ old = {}
Next == \E o \in Ops, a \in SUBSET All : F!Apply(o, a) /\ last' = o /\ arg' = a /\ old' = fs
Spec == Init /\ [][Next]_<<fs, last, arg, old>>
OnlyNamed == last \in {"set", "unset", "toggle"} => (fs \ arg) = (old \ arg)
Queries == /\ (last = "set" => F!AllOf(arg)) /\ (last = "unset" => F!NoneOf(arg))
           /\ \A a \in SUBSET All : F!NoneOf(a) = ~F!Any(a)
           /\ \A a \in SUBSET All : (a # {} /\ F!AllOf(a)) => F!Any(a)
Involution == last = "toggle" => F!New("toggle", fs, arg) = old
=============================================================================
