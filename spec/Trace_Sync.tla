----------------------------- MODULE Trace_Sync -----------------------------
EXTENDS TraceBase
VARIABLES lat, rdy, stp, th, pend
S == INSTANCE Sync
sync == <<lat, rdy, stp, th>>
vars == <<tid, l, lat, rdy, stp, th, pend>>
None == << >>
Th == 0 .. 6
TInit == tid \in 1 .. NT /\ l = 1 /\ S!Init /\ pend = [t \in Th |-> None]
Set(t, v) == pend' = [pend EXCEPT ![t] = v]
Pending(t) == pend[t] # None /\ pend[t][1] = "p"
Done(t, r) == Set(t, <<"d", r>>)
Fin(t, r) == Done(t, r) /\ UNCHANGED sync
SeqStep == UNCHANGED pend /\ Adv
B(x) == IF x THEN 1 ELSE 0

TNew == \/ Is("latch") /\ S!NewLatch(Ev[2], Ev[3]) /\ SeqStep
        \/ Is("flag") /\ S!NewFlag(Ev[2]) /\ SeqStep
        \/ Is("stopf") /\ S!NewStop(Ev[2]) /\ SeqStep
        \/ Is("thread") /\ S!NewThread(Ev[2], Ev[3]) /\ SeqStep
        \/ Is("setfn") /\ S!SetFunction(Ev[2]) /\ SeqStep
TRun == \/ Is("fb") /\ S!FnBegin(Ev[2]) /\ SeqStep
        \/ Is("fe") /\ S!FnEnd(Ev[2]) /\ SeqStep
TCall == /\ Is("c") /\ pend[Ev[2]] = None
         /\ Set(Ev[2], <<"p", Ev[3], Ev[4]>>) /\ UNCHANGED sync /\ Adv
TRet == /\ Is("r") /\ pend[Ev[2]] = <<"d", Ev[3]>> /\ Set(Ev[2], None) /\ UNCHANGED sync /\ Adv
\* The stop test of a wait may run any time before the wait is over.
TStop == /\ Is("stop") /\ Pending(Ev[2]) /\ pend[Ev[2]][2] = "swt"
         /\ IF Ev[3] = 1 THEN Done(Ev[2], -1) ELSE UNCHANGED pend
         /\ UNCHANGED sync /\ Adv
Blocked(t) ==
  LET o == pend[t][2]  i == pend[t][3] IN
    \/ o \in {"w", "cdw2"} /\ ~S!Open(i)
    \/ o = "sw" /\ ~rdy[i]
    \/ o = "join" /\ ~S!Over(i)
Lin(t) ==
  /\ More /\ Ev[1] \notin {"c", "end"} /\ Pending(t)
  /\ LET o == pend[t][2]  i == pend[t][3] IN
     \/ o = "cd" /\ S!Down(i) /\ Done(t, B(lat[i] = 1))
     \/ o = "cdw" /\ S!Down(i) /\ Set(t, <<"p", "cdw2", i>>)
     \/ o \in {"w", "cdw2"} /\ S!Open(i) /\ Fin(t, 0)
     \/ o = "ir" /\ Fin(t, B(S!Open(i)))
     \/ o \in {"sw", "swt"} /\ rdy[i] /\ Fin(t, 0)
     \/ o = "nr" /\ S!Notify(i) /\ Done(t, 0)
     \/ o = "st" /\ S!SetStop(i, TRUE) /\ Done(t, 0)
     \/ o = "rs" /\ S!SetStop(i, FALSE) /\ Done(t, 0)
     \/ o = "sq" /\ Fin(t, B(stp[i]))
     \/ o = "start" /\ S!Start(i) /\ Done(t, 0)
     \/ o \in {"stop", "del"} /\ S!Cancel(i) /\ Set(t, <<"p", "join", i>>)
     \/ o = "join" /\ S!Over(i) /\ Fin(t, 0)
  /\ Stay
THang == /\ Is("hang") /\ Ev[2] = "deadlock"
         /\ \E t \in Th : pend[t] # None
         /\ Test(\A t \in Th : pend[t] = None \/ (Pending(t) /\ Blocked(t)))
         /\ UNCHANGED sync /\ SeqStep
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED sync /\ SeqStep
TNext == TNew \/ TRun \/ TCall \/ TRet \/ TStop \/ THang \/ TEnd \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
