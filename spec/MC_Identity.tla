---------------------------- MODULE MC_Identity -----------------------------
(* Hashes: whatever hashes are given out under the rules, each is told      *)
(* apart; the rules never run out of room.  Identifiers: what is written is *)
(* read back.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Byte, MaxLen, Hash
VARIABLE known
I == INSTANCE Identity
Block == UNION {[1 .. n -> Byte] : n \in 0 .. 1}
Blocks == {<<b>> : b \in Block} \cup {<<b, c>> : b, c \in Block}
Init == I!HInit
Next == \E s \in {k[2] : k \in known}, bs \in Blocks, h \in Hash :
          /\ \A b \in I!BlocksOf(s) : Len(b \o bs) <= MaxLen
          /\ I!Combine(s, bs, h)
Spec == Init /\ [][Next]_known
Lists == {k[1] : k \in known}
\* Equal bytes in equal blocks hash alike; different bytes differently.
Function == \A k, m \in known : k[1] = m[1] => k[2] = m[2]
Apart == \A k, m \in known : I!Flat(k[1]) # I!Flat(m[1]) => k[2] # m[2]
Sample == {[k \in 1 .. 16 |-> (a * k + b) % 256] : a \in {0, 1, 7, 37, 255}, b \in {0, 9, 10, 15, 16, 90, 128, 170, 255}}
ASSUME \A u \in Sample : I!Valid(I!Text(u)) /\ I!Parse(I!Text(u)) = u /\ Len(I!Text(u)) = 36
ASSUME \A u, v \in Sample : I!Text(u) = I!Text(v) => u = v
ASSUME ~I!Valid(Append(I!Text(I!Namespace), 48)) /\ ~I!Valid(Tail(I!Text(I!Namespace)))
\* "abc": 4c208fd4-9a17-5c0d-bd1c-fc67e6c59a67
ASSUME I!OfName(<<97, 98, 99>>) = <<76, 32, 143, 212, 154, 23, 92, 13, 189, 28, 252, 103, 230, 197, 154, 103>>
=============================================================================
