------------------------------ MODULE Identity ------------------------------
(* What identifies things: hashes of bytes (Hash.h), and universally unique *)
(* identifiers, their text and names (Uuid.h).                              *)
EXTENDS Integers, Sequences, FiniteSets, Sha1

\* ---- Hashes.  Nothing but this is said about their values: a hash is     *)
\* a function of the blocks of bytes combined so far, and tells different   *)
\* bytes apart.  known holds <<blocks, hash>>.
VARIABLE known
RECURSIVE Flat(_)
Flat(bs) == IF bs = << >> THEN << >> ELSE Head(bs) \o Flat(Tail(bs))
HInit == known = {<< << >>, 0 >>}
BlocksOf(h) == {k[1] : k \in {x \in known : x[2] = h}}
Agrees(bs, h) == \A k \in known :
  /\ k[1] = bs => k[2] = h
  /\ k[2] = h => Flat(k[1]) = Flat(bs)
\* A hash (of blocks already combined into seed) is taken, and is h.
Combine(seed, bs, h) ==
  \E s \in BlocksOf(seed) :
    /\ Agrees(s \o bs, h)
    /\ known' = known \cup {<<s \o bs, h>>}

\* ---- Text of identifiers: 8-4-4-4-12 digits.
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(b) == <<Digit(b \div 16), Digit(b % 16)>>
RECURSIVE TextFrom(_, _)
TextFrom(u, k) == IF k > 16 THEN << >>
                  ELSE (IF k \in {5, 7, 9, 11} THEN <<45>> ELSE << >>) \o Hex(u[k]) \o TextFrom(u, k + 1)
Text(u) == TextFrom(u, 1)
Val(c) == CASE c \in 48 .. 57 -> c - 48 [] c \in 97 .. 102 -> c - 87 [] c \in 65 .. 70 -> c - 55 [] OTHER -> 16
Dashes == {9, 14, 19, 24}
Valid(t) == Len(t) = 36 /\ \A k \in 1 .. 36 : IF k \in Dashes THEN t[k] = 45 ELSE Val(t[k]) < 16
\* Where the first digit of byte k is.
At(k) == (2 * k) - 1 + Cardinality({d \in {5, 7, 9, 11} : d <= k})
Parse(t) == [k \in 1 .. 16 |-> (16 * Val(t[At(k)])) + Val(t[At(k) + 1])]

\* ---- Identifiers of names (RFC 4122, version 5).
Namespace == <<83, 104, 97, 114, 101, 109, 105, 110, 100, 126, 40, 94, 95, 94, 41, 126>>
OfName(n) == LET d == Digest(Namespace \o n) IN
  [k \in 1 .. 16 |-> CASE k = 7 -> 80 + (d[7] % 16) [] k = 9 -> 128 + (d[9] % 64) [] OTHER -> d[k]]
=============================================================================
