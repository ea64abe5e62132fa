-------------------------- MODULE Trace_Exceptions --------------------------
(* Exceptions are recorded as <<kind, number of the text>> (and the error     *)
(* number for kind 3); text 0: none.                                          *)
EXTENDS TraceBase
Flat(e) == e[1] \in {5, 6}      \* an int, a final class
CN(e) == ~Flat(e)
HO(e) == e[1] = 9               \* brings its own chain
X == INSTANCE Exceptions WITH CanNest <- CN, HasOwn <- HO
VARIABLES chain, types, slots
vars == <<tid, l, chain, types, slots>>
TInit == tid \in 1 .. NT /\ l = 1 /\ chain = << >> /\ types = << >> /\ slots = [i \in 0 .. 3 |-> 0]
Std(e) == e[1] \notin {5, 7}
Kept == UNCHANGED <<chain, types, slots>>
\* As printed: up to the first that is not a std::exception.
RECURSIVE Upto(_, _)
Upto(s, k) == IF k > Len(s) THEN Len(s) ELSE IF ~Std(s[k]) THEN k ELSE Upto(s, k + 1)
Op ==
  \/ Is("throw") /\ LET base == Ev[3]   args == Ev[4] IN
       /\ Test(Ev[6] = (IF Ev[2] \in {"n", "m"} THEN X!ThrowNested(args, base) ELSE X!ThrowWithNested(args, base, base)))
       /\ (Ev[5] # << >> => Ev[5] = args)      \* those copied are left as they were
       /\ chain' = Ev[6] /\ UNCHANGED <<types, slots>>
  \/ Is("types") /\ Len(Ev[2]) = Len(chain) /\ types' = Ev[2] /\ UNCHANGED <<chain, slots>>
  \/ Is("print") /\ LET n == Upto(chain, 1) IN
       /\ Len(Ev[2]) = n /\ Ev[3] = (IF Std(chain[n]) THEN 0 ELSE 1)
       /\ Test(\A k \in 1 .. n : /\ Ev[2][k][1] = k
                                 /\ (types[k] # 0 => Ev[2][k][2] = types[k])
                                 /\ Ev[2][k][3] = (IF Std(chain[k]) THEN chain[k][2] ELSE 0))
       /\ Kept
  \/ Is("make") /\ slots' = [slots EXCEPT ![Ev[2]] = Ev[3]] /\ UNCHANGED <<chain, types>>
  \/ Is("copy") /\ slots' = [slots EXCEPT ![Ev[2]] = slots[Ev[3]]] /\ UNCHANGED <<chain, types>>
  \/ Is("msgs") /\ Test(\A i \in 0 .. 3 : IF slots[i] = 0 THEN Ev[2][i + 1] = << >> ELSE Len(Ev[2][i + 1]) = 2 /\ Ev[2][i + 1][2] = slots[i]) /\ Kept
  \/ Is("handlers") /\ Ev[2] = 1 /\ Ev[3] = 1 /\ Kept
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ Kept
TNext == Op /\ Adv
TSpec == TInit /\ [][TNext]_vars
=============================================================================
