-------------------------- MODULE Trace_SharedParts -------------------------
EXTENDS TraceBase
VARIABLES holds, shape, gone, weak, told   \* told: destroyed objects reported
S == INSTANCE SharedParts WITH Slot <- 0 .. 5
vars == <<tid, l, holds, shape, gone, weak, told>>
TInit == tid \in 1 .. NT /\ l = 1 /\ holds = [s \in 0 .. 5 |-> <<0, 0>>] /\ shape = << >> /\ gone = {} /\ weak = [w \in 0 .. 1 |-> <<0, 0>>] /\ told = {}
Kept == UNCHANGED <<holds, shape, gone, weak>>
Sees(s) == IF holds[s] = S!None THEN Ev[2][s + 1] = << >>
           ELSE Ev[2][s + 1] = <<holds[s][1], holds[s][2], S!Holders(holds[s][1])>>
\* Each part of each object just destroyed, once.
Died == UNION {{(10 * o) + p : p \in 1 .. shape[o]} : o \in gone \ told}
Op ==
  \/ Is("new") /\ UNCHANGED told /\ Ev[5] = 1
       /\ IF Ev[3] = 0 THEN S!Drop(Ev[2]) ELSE S!New(Ev[2], Ev[3], Ev[4])
  \/ Is("copy") /\ S!Copy(Ev[2], Ev[3]) /\ UNCHANGED told
  \/ Is("move") /\ S!Move(Ev[2], Ev[3]) /\ UNCHANGED told
  \/ Is("drop") /\ S!Drop(Ev[2]) /\ UNCHANGED told
  \/ Is("part") /\ S!Part(Ev[2], Ev[3], Ev[4]) /\ UNCHANGED told
  \/ Is("parts") /\ LET o == holds[Ev[4]][1] IN
       S!SetTo([holds EXCEPT ![Ev[2]] = <<o, 1>>, ![Ev[3]] = <<o, 3>>]) /\ UNCHANGED <<shape, weak, told>>
  \/ Is("weak") /\ S!Weak(Ev[2], Ev[3], Ev[4]) /\ UNCHANGED told
  \/ Is("lock") /\ S!Lock(Ev[2], Ev[3]) /\ UNCHANGED told
  \/ Is("all") /\ S!SetTo([s \in 0 .. 5 |-> S!None]) /\ UNCHANGED <<shape, weak, told>>
  \/ Is("now") /\ Kept /\ Test(\A s \in 0 .. 5 : Sees(s))
       /\ Test(Len(Ev[3]) = Cardinality(Died) /\ {Ev[3][k] : k \in 1 .. Len(Ev[3])} = Died)
       /\ told' = gone
  \/ Is("late") /\ Ev[2] = 1 /\ Kept /\ UNCHANGED told
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ Kept /\ UNCHANGED told
TNext == Op /\ Adv
TSpec == TInit /\ [][TNext]_vars
=============================================================================
