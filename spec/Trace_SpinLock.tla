--------------------------- MODULE Trace_SpinLock ---------------------------
EXTENDS TraceBase
VARIABLES holder, queue, data, pend
S == INSTANCE SpinLock
lock == <<holder, queue, data>>
vars == <<tid, l, holder, queue, data, pend>>
None == << >>
Th == 1 .. 5
TInit == tid \in 1 .. NT /\ l = 1 /\ S!Init /\ pend = [t \in Th |-> None]
Set(t, v) == pend' = [pend EXCEPT ![t] = v]
TCall == /\ Is("c") /\ pend[Ev[2]] = None /\ Set(Ev[2], <<Ev[3]>>) /\ UNCHANGED lock /\ Adv
Lin(t) ==
  /\ NextIs({"r", "arr", "hang"}) /\ pend[t] # None
  /\ \/ pend[t] = <<"lock">> /\ S!Arrive(t) /\ Set(t, <<"wait">>)
     \/ pend[t] = <<"wait">> /\ S!Acquire(t) /\ Set(t, <<"done">>)
     \/ pend[t] = <<"unlock">> /\ S!Release(t) /\ Set(t, <<"done">>)
  /\ Stay
TRet == /\ Is("r") /\ pend[Ev[2]] = <<"done">> /\ Set(Ev[2], None) /\ UNCHANGED lock /\ Adv
\* The driver knows that this thread has been waiting for a while.
TArr == /\ Is("arr") /\ S!InQueue(Ev[2]) /\ UNCHANGED <<lock, pend>> /\ Adv
TData == /\ Is("data") /\ S!Update(Ev[2], Ev[3]) /\ UNCHANGED pend /\ Adv
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED <<lock, pend>> /\ Adv
TNext == TCall \/ TRet \/ TArr \/ TData \/ TEnd \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
