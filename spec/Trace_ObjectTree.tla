-------------------------- MODULE Trace_ObjectTree --------------------------
(* Histories by one thread at a time: ["new",i,p] ["newx"] ["die",i]          *)
(* ["freed",i] ["gone",i] ["see",i,parent,children,count]; by several: calls  *)
(* and returns on the children of object 1.                                  *)
EXTENDS TraceBase
VARIABLES up, dying, pend
C == INSTANCE ObjectTree
tv == <<up, dying>>
vars == <<tid, l, up, dying, pend>>
Th == 0 .. 4
None == << >>
TInit == tid \in 1 .. NT /\ l = 1 /\ up = << >> /\ dying = {} /\ pend = [t \in Th |-> None]
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
Same == UNCHANGED tv
Op ==
  \/ Is("new") /\ C!New(Ev[2], Ev[3])
  \* Failing, nothing happens.
  \/ Is("newx") /\ Same
  \/ Is("die") /\ C!Begin(Ev[2])
  \/ Is("freed") /\ C!Free(Ev[2])
  \/ Is("gone") /\ C!End(Ev[2])
  \/ Is("see") /\ Same /\ Ev[2] \in C!Live /\ up[Ev[2]] = Ev[3] /\ C!Kids(Ev[2]) = SetOf(Ev[4])
     /\ Len(Ev[4]) = Cardinality(SetOf(Ev[4])) /\ Ev[5] = Cardinality(C!Kids(Ev[2]))
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ up = << >> /\ Same
Set(t, x) == pend' = [pend EXCEPT ![t] = x]
TCall == Is("c") /\ pend[Ev[2]] = None /\ Set(Ev[2], <<"p", Ev[3], Ev[4]>>) /\ Same /\ Adv
TRet == Is("r") /\ pend[Ev[2]] = <<"d", Ev[3]>> /\ Set(Ev[2], None) /\ Same /\ Adv
Pending(t) == pend[t] # None /\ pend[t][1] = "p"
Lin(t) ==
  /\ NextIs({"r"}) /\ Pending(t)
  /\ LET o == pend[t][2]  a == pend[t][3]  r == Traces[tid][RetIdx(t)][3] IN
     \/ o = "add" /\ C!New(a, 1) /\ Set(t, <<"d", 0>>)
     \/ o = "del" /\ a \in C!Kids(1) /\ C!Kids(a) = {} /\ up' = [k \in C!Live \ {a} |-> up[k]] /\ UNCHANGED dying /\ Set(t, <<"d", 0>>)
     \/ o = "num" /\ Same /\ Set(t, <<"d", Cardinality(C!Kids(1))>>)
     \/ o = "list" /\ Same /\ SetOf(r) = C!Kids(1) /\ Len(r) = Cardinality(C!Kids(1)) /\ Set(t, <<"d", r>>)
  /\ Stay
TNext ==
  \/ Op /\ Adv /\ UNCHANGED pend
  \/ TCall \/ TRet \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
