------------------------ MODULE Trace_IdentifierPool ------------------------
EXTENDS TraceBase
CONSTANTS Ids, Pools
IdsDef == 0 .. 255
VARIABLES hold, pend
P == INSTANCE IdentifierPool
vars == <<tid, l, hold, pend>>

None == << >>
TInit == tid \in 1 .. NT /\ l = 1 /\ P!Init /\ pend = [t \in 0 .. 4 |-> None]

SeqStep == UNCHANGED pend /\ Adv
\* Sequential events.
\* (No history here uses up the identifiers of more than 8 bits.)
Space(bits) == CASE bits = 8 -> Ids [] bits = 16 -> 0 .. 65535 [] OTHER -> Nat
TRes == Is("res") /\ P!ReserveIn(Space(Ev[5]), Ev[3], Ev[2], Ev[4]) /\ SeqStep
TFull == Is("full") /\ Ev[3] = 8 /\ P!Exhausted(Ev[2]) /\ SeqStep
TWhole == Is("whole") /\ P!UsedUp(2 ^ Ev[2], Ev[3], Ev[4], Ev[5]) /\ SeqStep
TRel == Is("rel") /\ P!Release(Ev[2]) /\ SeqStep
TMv == Is("mv") /\ (IF Ev[2] = Ev[3] THEN P!MoveSelf(Ev[2]) ELSE P!Move(Ev[2], Ev[3])) /\ SeqStep
TQuery == Is("q") /\ P!Query(Ev[2], Ev[3], Ev[4]) /\ SeqStep
TNote == Is("note") /\ UNCHANGED hold /\ SeqStep
TPreset == /\ Is("preset")
           /\ LET ids == Ev[3] IN
                /\ Cardinality({ids[i] : i \in DOMAIN ids}) = Len(ids)
                /\ Test(\A i \in DOMAIN ids : ids[i] \in Ids)
                /\ hold = << >>
                /\ hold' = [s \in {1000 + i : i \in DOMAIN ids} |-> <<Ev[2], ids[s - 1000]>>]
           /\ SeqStep
\* Concurrent calls: the effect happens at one moment between call and return.
TCall == /\ Is("c") /\ pend[Ev[2]] = None
         /\ pend' = [pend EXCEPT ![Ev[2]] = <<"p", Ev>>] /\ UNCHANGED hold /\ Adv
Done(t, r) == pend' = [pend EXCEPT ![t] = <<"d", r>>]
Lin(t) ==
  /\ NextIs({"r"}) /\ pend[t] # None /\ pend[t][1] = "p"
  /\ LET e == pend[t][2] IN
       \/ /\ e[3] = "res"
          /\ LET k == RetIdx(t)
                 i == IF k = 0 THEN -1 ELSE Traces[tid][k][3]
             IN IF i >= 0 THEN P!Reserve(e[4], 0, i) /\ Done(t, i)
                          ELSE P!Exhausted(0) /\ Done(t, -1)
       \/ e[3] = "rel" /\ P!Release(e[4]) /\ Done(t, 0)
       \/ e[3] = "mv" /\ P!Move(e[4], e[5]) /\ Done(t, 0)
  /\ Stay
TRet == /\ Is("r") /\ pend[Ev[2]] = <<"d", Ev[3]>>
        /\ pend' = [pend EXCEPT ![Ev[2]] = None] /\ UNCHANGED hold /\ Adv
\* The end: nothing is leaked, every thread is joined.
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED hold /\ SeqStep

TNext == \/ TRes \/ TFull \/ TWhole \/ TRel \/ TMv \/ TQuery \/ TNote \/ TPreset
         \/ TCall \/ TRet \/ TEnd \/ \E t \in 0 .. 4 : Lin(t)
TSpec == TInit /\ [][TNext]_vars
Unique == P!Unique
=============================================================================
