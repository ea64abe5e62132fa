------------------------- MODULE Trace_StrongTypes --------------------------
EXTENDS TraceBase
VARIABLES kind, reg
R == 0 .. 3
S == INSTANCE StrongTypes WITH Reg <- R
vars == <<tid, l, kind, reg>>
TInit == tid \in 1 .. NT /\ l = 1 /\ S!Init(Traces[tid][1][2])
Kept == UNCHANGED <<kind, reg>>
Flag(b) == IF b THEN 1 ELSE 0
\* The operand of an update: another register, or a number of another type.
Operand == IF Ev[4] >= 0 THEN reg[Ev[4]] ELSE Ev[5]
Less(a, b) == S!Order(kind, a, b)[3]
Op ==
  \/ Is("kind") /\ l = 1 /\ Kept
  \/ Is("set") /\ S!Set(Ev[2], Ev[3])
  \/ Is("copy") /\ S!Set(Ev[2], reg[Ev[3]])
  \* updates return what they updated, in place
  \/ Is("upd") /\ S!Assign(Ev[2], Ev[3], Operand) /\ Ev[6] = 1
  \/ Is("upd2") /\ Ev[6] = 1   \* (a op= b) op= b
       /\ S!Set(Ev[3], S!Apply(kind, Ev[2], S!Apply(kind, Ev[2], reg[Ev[3]], reg[Ev[4]]), IF Ev[4] = Ev[3] THEN S!Apply(kind, Ev[2], reg[Ev[3]], reg[Ev[4]]) ELSE reg[Ev[4]]))
  \* ++a, --a: returns a itself; a++, a--: returns what it was
  \/ Is("pre") /\ S!Step(Ev[2], Ev[3]) /\ Ev[4] = 1 /\ Ev[5] = S!Apply(kind, "+", reg[Ev[2]], Ev[3])
  \/ Is("post") /\ S!Step(Ev[2], Ev[3]) /\ Ev[4] = reg[Ev[2]]
  \/ Is("cmp") /\ Kept /\ LET o == S!Order(kind, reg[Ev[2]], reg[Ev[3]]) IN Test(\A k \in 1 .. 6 : Ev[4][k] = Flag(o[k]))
  \* hashed like the number wrapped
  \/ Is("hash") /\ Kept /\ Ev[3] = 1 /\ Ev[4] = 1
  \/ Is("swap") /\ S!Swap(Ev[2], Ev[3]) /\ Ev[4] = 1
  \/ Is("text") /\ Kept /\ Ev[3] = S!Text(kind, reg[Ev[2]]) /\ Ev[4] = 1
  \/ Is("now") /\ Kept /\ Test(\A r \in R : reg[r] = Ev[2][r + 1])
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ Kept
\* Where sorting goes is seen in the record.
Sorted == Is("sort") /\ reg' = [r \in R |-> Ev[2][r + 1]] /\ UNCHANGED kind
            /\ Test(\A k \in 0 .. 2 : ~Less(Ev[2][k + 2], Ev[2][k + 1]))
            /\ Test(\A v \in {reg[r] : r \in R} \cup {Ev[2][k] : k \in 1 .. 4} :
                     Cardinality({r \in R : reg[r] = v}) = Cardinality({k \in 1 .. 4 : Ev[2][k] = v}))
TNext == (Op \/ Sorted) /\ Adv
TSpec == TInit /\ [][TNext]_vars
=============================================================================
