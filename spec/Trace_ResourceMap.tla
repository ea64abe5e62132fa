------------------------- MODULE Trace_ResourceMap -------------------------
(* Events: ["c",t,op,a,b] ["r",t,res]; ["ctor",t,id,key] ["ctorx",t,key] and  *)
(* ["dtor",id] from the resource; ["vis",t,id] from forEach; ["oom"].         *)
EXTENDS TraceBase
VARIABLES live, hold, pend, seen
M == INSTANCE ResourceMap
rv == <<live, hold>>
vars == <<tid, l, live, hold, pend, seen>>
None == << >>
Th == 0 .. 6
TInit == tid \in 1 .. NT /\ l = 1 /\ M!Init /\ pend = [t \in Th |-> None] /\ seen = {}
Set(t, v) == pend' = [pend EXCEPT ![t] = v] /\ UNCHANGED seen
Pending(t) == pend[t] # None /\ pend[t][1] = "p"
Done(t, r) == Set(t, <<"d", r>>)
Fin(t, r) == Done(t, r) /\ UNCHANGED rv
B(x) == IF x THEN 1 ELSE 0
Oom == \E k \in 1 .. l : Traces[tid][k][1] = "oom"
Busy(t, o) == Pending(t) /\ pend[t][2] = o
TCall == /\ Is("c") /\ pend[Ev[2]] = None
         /\ Set(Ev[2], <<"p", Ev[3], Ev[4], Ev[5]>>) /\ UNCHANGED rv /\ Adv
TCtor == /\ Is("ctor") /\ Busy(Ev[2], "get") /\ pend[Ev[2]][4] = Ev[4]
         /\ M!Create(Ev[3], Ev[4]) /\ Set(Ev[2], <<"p", "got", pend[Ev[2]][3], Ev[3]>>) /\ Adv
\* A creation that fails: also only when there is none.
TCtorX == /\ Is("ctorx") /\ Busy(Ev[2], "get") /\ M!Of(Ev[3]) = {}
          /\ Fin(Ev[2], -1) /\ Adv
TDtor == Is("dtor") /\ M!Destroy(Ev[2]) /\ UNCHANGED <<pend, seen>> /\ Adv
TVis == /\ Is("vis") /\ Busy(Ev[2], "each2") /\ Ev[3] \in seen \cap DOMAIN live
        /\ seen' = seen \ {Ev[3]} /\ UNCHANGED <<rv, pend>> /\ Adv
TOom == Is("oom") /\ UNCHANGED <<rv, pend, seen>> /\ Adv
\* When nobody else is inside, what nobody holds has been destroyed.
TRet == /\ Is("r") /\ pend[Ev[2]] = <<"d", Ev[3]>> /\ Set(Ev[2], None) /\ UNCHANGED rv
        /\ Test((\A t \in Th \ {Ev[2]} : pend[t] = None) => M!AllUsed) /\ Adv
Lin(t) ==
  /\ More /\ Ev[1] \notin {"c", "end"} /\ Pending(t)
  /\ LET o == pend[t][2]  a == pend[t][3]  b == pend[t][4] IN
     \/ o = "get" /\ \E i \in M!Of(b) : M!Hold(a, i) /\ Done(t, i)
     \/ o = "get" /\ Oom /\ Fin(t, -2)
     \/ o = "got" /\ M!Hold(a, b) /\ Done(t, b)
     \/ o = "got" /\ Oom /\ b \notin DOMAIN live /\ Fin(t, -2)
     \/ o = "copy" /\ M!Hold(a, hold[b]) /\ Done(t, 0)
     \/ o = "drop" /\ M!Drop(a) /\ Done(t, 0)
     \/ o = "delmap" /\ Fin(t, 0)
     \/ o = "empty" /\ Fin(t, B(live = << >>))
     \/ o = "size" /\ Fin(t, Cardinality(DOMAIN live))
     \/ o = "wfe" /\ live = << >> /\ Fin(t, 0)
     \* forEach: what is not visited is used by nobody at its end
     \/ o = "each" /\ seen' = {i \in DOMAIN live : M!Used(i)}
                   /\ pend' = [pend EXCEPT ![t] = <<"p", "each2", 0, 0>>] /\ UNCHANGED rv
     \/ o = "each2" /\ (\A i \in seen : ~M!Used(i)) /\ Fin(t, 0)
  /\ Stay
THang == /\ Is("hang") /\ Ev[2] = "deadlock" /\ live # << >>
         /\ \E t \in Th : pend[t] # None
         /\ Test(\A t \in Th : pend[t] = None \/ Busy(t, "wfe"))
         /\ UNCHANGED <<rv, pend, seen>> /\ Adv
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ live = << >> /\ UNCHANGED <<rv, pend, seen>> /\ Adv
TNext == TCall \/ TRet \/ TCtor \/ TCtorX \/ TDtor \/ TVis \/ TOom \/ THang \/ TEnd
         \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
Inv == M!OnePerKey
=============================================================================
