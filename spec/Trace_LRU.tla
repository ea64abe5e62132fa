----------------------------- MODULE Trace_LRU -----------------------------
(* The last fields of each event: the objects destroyed during it.            *)
EXTENDS TraceBase
VARIABLES limit, cache, weak, held
C == INSTANCE LRU
lv == <<limit, cache, weak, held>>
vars == <<tid, l, lv>>
TInit == tid \in 1 .. NT /\ l = 1 /\ C!Init
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
Destroyed(s, S) == ToSet(s) = S /\ Len(s) = Cardinality(S)
NoneAt(s) == s = << >>
TNew == Is("new") /\ cache = << >> /\ limit' = Ev[2] /\ UNCHANGED <<cache, weak, held>>
\* ["ins", key, new object, slot or 0, failed, destroyed before (by the slot), after]
TIns == /\ Is("ins")
        /\ LET k == Ev[2]  o == Ev[3]  s == Ev[4]
               h == IF s = 0 THEN held ELSE (s :> o) @@ held
               mid == C!AliveIn(cache, h) IN
           /\ held' = h
           /\ Destroyed(Ev[6], C!Alive \ mid)
           /\ IF Ev[5] = 1 THEN UNCHANGED <<limit, cache, weak>> ELSE C!Insert(k, o)
           /\ Destroyed(Ev[7], (mid \cup {o}) \ C!AliveIn(cache', h))
TPut == /\ Is("put") /\ Test(Ev[3] \in C!Range(held)) /\ UNCHANGED held
        /\ IF Ev[4] = 1 THEN UNCHANGED <<limit, cache, weak>> ELSE C!Insert(Ev[2], Ev[3])
        /\ Destroyed(Ev[5], C!Gone)
\* (the object in hand keeps itself alive)
TGet == /\ Is("get") /\ Ev[3] = C!Found(Ev[2]) /\ C!Get(Ev[2]) /\ UNCHANGED held
        /\ Destroyed(Ev[4], C!Gone) /\ Destroyed(Ev[5], {})
TTake == /\ Is("take") /\ Ev[3] = C!Found(Ev[2]) /\ C!Get(Ev[2])
         /\ (IF Ev[3] = 0 THEN C!Drop(Ev[4]) ELSE C!Hold(Ev[4], Ev[3]))
         /\ LET mid == C!AliveIn(cache', held) IN
            Destroyed(Ev[5], C!Alive \ mid) /\ Destroyed(Ev[6], mid \ C!AliveIn(cache', held'))
TDrop == Is("drop") /\ C!Drop(Ev[2]) /\ UNCHANGED <<limit, cache, weak>> /\ Destroyed(Ev[3], C!Gone)
TCopy == /\ Is("copy") /\ (IF Ev[3] \in DOMAIN held THEN C!Hold(Ev[2], held[Ev[3]]) ELSE C!Drop(Ev[2]))
         /\ UNCHANGED <<limit, cache, weak>> /\ Destroyed(Ev[4], C!Gone)
TClear == Is("clear") /\ C!Clear /\ UNCHANGED held /\ Destroyed(Ev[2], C!Gone)
TDel == Is("del") /\ C!Clear /\ UNCHANGED held /\ Destroyed(Ev[2], C!Gone)
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED lv
TNext == Adv /\ (TNew \/ TIns \/ TPut \/ TGet \/ TTake \/ TDrop \/ TCopy \/ TClear \/ TDel \/ TEnd)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
