--------------------------- MODULE Trace_Identity ---------------------------
EXTENDS TraceBase
VARIABLES known, ids   \* ids: hashes of identifiers, <<bytes, hash>>
I == INSTANCE Identity
vars == <<tid, l, known, ids>>
TInit == tid \in 1 .. NT /\ l = 1 /\ I!HInit /\ ids = {}
Kept == UNCHANGED <<known, ids>>
Op ==
  \/ Is("hash") /\ I!Combine(Ev[2], Ev[3], Ev[4]) /\ UNCHANGED ids
  \/ Is("uhash") /\ Test(\A x \in ids : (x[1] = Ev[2]) = (x[2] = Ev[3]))
       /\ ids' = ids \cup {<<Ev[2], Ev[3]>>} /\ UNCHANGED known
  \* what a type says its hash is
  \/ Is("member") /\ Kept /\ Ev[3] = Ev[2] /\ Ev[4] = Ev[2]
  \/ Is("text") /\ Kept /\ Ev[3] = I!Text(Ev[2])
  \/ Is("parse") /\ Kept /\ IF I!Valid(Ev[2]) THEN Ev[3] = 1 /\ Ev[4] = I!Parse(Ev[2]) ELSE Ev[3] = 0
  \/ Is("name") /\ Kept /\ Ev[3] = I!OfName(Ev[2])
  \/ Is("oom") /\ Kept
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ Kept
TNext == Op /\ Adv
TSpec == TInit /\ [][TNext]_vars
=============================================================================
