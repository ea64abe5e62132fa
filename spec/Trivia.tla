------------------------------- MODULE Trivia -------------------------------
(* Small functions: on types (sequences of what they are made of, outermost   *)
(* first), values of enumerations, pointers to what may be void, durations,   *)
(* times, and the outcomes of assertions in tests.                            *)
EXTENDS Integers, Sequences
Ref == 1  RRef == 2  Const == 3  Volatile == 4  Ptr == 5  Wrapper == 6  Array == 7  Fun == 24
IsRef(t) == t[1] \in {Ref, RRef}
NoRef(t) == IF IsRef(t) THEN Tail(t) ELSE t
\* The qualifiers of an array are those of its elements.
RECURSIVE NoCv(_)
NoCv(t) == CASE t[1] \in {Const, Volatile} -> NoCv(Tail(t))
             [] t[1] = Array -> SubSeq(t, 1, 2) \o NoCv(SubSeq(t, 3, Len(t)))
             [] OTHER -> t
NoCvRef(t) == NoCv(NoRef(t))
Decay(t) == LET u == NoRef(t) IN
  CASE u[1] = Array -> <<Ptr>> \o SubSeq(u, 3, Len(u)) [] u[1] = Fun -> <<Ptr>> \o u [] OTHER -> NoCv(u)
Unwrap(t) == IF t[1] = Wrapper THEN <<Ref>> \o Tail(t) ELSE t
RECURSIVE IsVoid(_)
IsVoid(t) == t[1] = 23 \/ (t[1] \in {Const, Volatile} /\ IsVoid(Tail(t)))
RECURSIVE NoConst(_)
NoConst(t) == CASE t[1] = Const -> Tail(t)
                [] t[1] = Volatile -> <<Volatile>> \o NoConst(Tail(t))
                [] OTHER -> t
Alloc(t) == IF IsVoid(t) THEN <<25>> ELSE NoConst(t)
\* Pointers move by whole elements, those to void by bytes.
SizeOf(size) == IF size = 0 THEN 1 ELSE size
RECURSIVE Walk(_, _, _)
Walk(at, steps, size) ==
  IF steps = << >> THEN at ELSE Walk(at + Head(steps) * SizeOf(size), Tail(steps), size)
\* What is copied: n elements from one place to another.
Copied(mem, from, to, n, size) ==
  [i \in DOMAIN mem |-> IF i > to /\ i <= to + n * SizeOf(size) THEN mem[i - to + from] ELSE mem[i]]
\* Chains of exceptions, outermost first: the number of a standard one, or 0 for
\* another, whose nested ones cannot be seen.
Seen(chain) == LET k == {i \in DOMAIN chain : chain[i] = 0} IN
  IF k = {} THEN chain ELSE SubSeq(chain, 1, CHOOSE i \in k : \A j \in k : i <= j)
Lines(chain) == LET s == Seen(chain) IN [i \in DOMAIN s |-> <<i, Len(s), s[i]>>]
\* An expression is true, false, or throws a chain; the outcome is whether the
\* test goes on, and what is printed about exceptions.
Asserted(kind, truth, chain) ==
  CASE kind = "assert" -> [on |-> chain = << >> /\ truth, says |-> Lines(chain)]
    [] kind = "nothrow" -> [on |-> chain = << >>, says |-> Lines(chain)]
    [] kind = "throws" -> [on |-> chain # << >>, says |-> << >>]
    [] kind = "print" -> [on |-> TRUE, says |-> Lines(chain)]
    [] OTHER -> [on |-> FALSE, says |-> << >>]
=============================================================================
