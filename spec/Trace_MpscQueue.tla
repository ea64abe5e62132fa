--------------------------- MODULE Trace_MpscQueue ---------------------------
EXTENDS TraceBase
VARIABLES q, pend
M == INSTANCE MpscQueue
vars == <<tid, l, q, pend>>
None == << >>
Th == 0 .. 5
TInit == tid \in 1 .. NT /\ l = 1 /\ M!Init /\ pend = [t \in Th |-> None]
Set(t, v) == pend' = [pend EXCEPT ![t] = v]
TCall == /\ Is("c") /\ pend[Ev[2]] = None /\ Set(Ev[2], <<Ev[3], Ev[4]>>) /\ UNCHANGED q /\ Adv
Lin(t) ==
  /\ NextIs({"r", "end"}) /\ pend[t] # None
  /\ LET o == pend[t][1]  x == pend[t][2] IN
     \/ o = "push" /\ M!Place(x) /\ Set(t, <<"push2", x>>)
     \/ o = "push2" /\ M!Link(x) /\ Set(t, <<"done", 0>>)
     \/ o = "pop" /\ \/ M!Nothing /\ Set(t, <<"done", 0>>)
                     \/ M!Visible /\ M!Pop(Head(q)[1]) /\ Set(t, <<"done", Head(q)[1]>>)
     \/ o = "empty" /\ UNCHANGED q /\ Set(t, <<"done", IF M!Visible THEN 0 ELSE 1>>)
  /\ Stay
TRet == /\ Is("r") /\ pend[Ev[2]] = <<"done", Ev[3]>> /\ Set(Ev[2], None) /\ UNCHANGED q /\ Adv
\* Left-over items are destroyed with the queue.
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED <<q, pend>> /\ Adv
TNext == TCall \/ TRet \/ TEnd \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
