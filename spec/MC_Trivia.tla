------------------------------ MODULE MC_Trivia ------------------------------
(* Types built up constructor by constructor, chains of exceptions, and walks: *)
(* the functions on them are idempotent and agree with each other.            *)
EXTENDS Integers, Sequences
CONSTANT Max
T == INSTANCE Trivia
VARIABLES t, chain, at, steps
vars == <<t, chain, at, steps>>
Init == t \in {<<20>>, <<21>>, <<24>>} /\ chain = << >> /\ at = 0 /\ steps = << >>
\* Types are built from the inside, where the language has them.
Can(c, u) ==
  CASE c \in {T!Ref, T!RRef} -> ~T!IsRef(u)
    [] c = T!Const -> ~T!IsRef(u) /\ u[1] \notin {T!Const, T!Volatile, T!Fun, T!Array}
    [] c = T!Volatile -> ~T!IsRef(u) /\ u[1] \notin {T!Volatile, T!Fun, T!Array, T!Const}
    [] c = T!Array -> ~T!IsRef(u) /\ u[1] # T!Fun
    [] OTHER -> ~T!IsRef(u)
Type == /\ Len(t) < Max /\ \E c \in {1, 2, 3, 4, 5, 6, 7} :
             Can(c, t) /\ t' = (IF c = T!Array THEN <<7, 2>> ELSE <<c>>) \o t
        /\ chain = << >> /\ steps = << >> /\ UNCHANGED <<chain, at, steps>>
Throw == Len(chain) < Max /\ \E e \in 0 .. 1 : chain' = Append(chain, e) /\ UNCHANGED <<t, at, steps>>
Step == Len(steps) < 3 /\ \E d \in -2 .. 2 : /\ steps' = Append(steps, d) /\ at' = at + d * 3 /\ UNCHANGED <<t, chain>>
Next == Type \/ (t = <<20>> /\ steps = << >> /\ Throw) \/ (t = <<20>> /\ chain = << >> /\ Step)
Spec == Init /\ [][Next]_vars
Laws == /\ T!NoCvRef(T!NoCvRef(t)) = T!NoCvRef(t) /\ T!Decay(T!Decay(t)) = T!Decay(t)
        /\ ~T!IsRef(T!NoCvRef(t)) /\ ~T!IsRef(T!Decay(t))
        /\ (T!NoRef(t)[1] \notin {T!Array, T!Fun} => T!Decay(t) = T!NoCvRef(t))
        /\ T!Alloc(T!Alloc(t)) = T!Alloc(t)
        /\ (t[1] = T!Wrapper => T!Decay(T!Unwrap(t)) = T!Decay(Tail(t)))
        /\ LET s == T!Lines(chain) IN
             /\ Len(s) <= Len(chain) /\ (chain # << >> => s # << >>)
             /\ \A i \in DOMAIN s : s[i] = <<i, Len(s), chain[i]>> /\ (chain[i] = 0 => i = Len(s))
             /\ (Len(s) < Len(chain) => s[Len(s)][3] = 0)
        /\ \A k \in {"assert", "nothrow", "throws", "unreachable"} :
             T!Asserted(k, TRUE, chain).on = (CASE k = "unreachable" -> FALSE [] k = "throws" -> chain # << >> [] OTHER -> chain = << >>)
        /\ T!Walk(0, steps, 3) = at /\ T!Walk(5, steps, 0) * 3 = 15 + at
=============================================================================
