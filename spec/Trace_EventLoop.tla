-------------------------- MODULE Trace_EventLoop --------------------------
(* ["strict"]; ["c",t,op,f,e,h,now] ["r",t,res]; ["hb",h,evs,t] a handler is  *)
(* called in thread t, ["he",h] and returns; ["hx",h] is destroyed; ["quiet"] *)
(* some time has passed, nothing can be pending; ["fds",n] descriptors left;  *)
(* ["took",t,ms] the call of t has taken so long (where time passes only      *)
(* while all threads are asleep, no call but that to run takes any).          *)
EXTENDS TraceBase
VARIABLES reg, cond, running, phase, batch, cur, stop, pend, strict, dead
L == INSTANCE EventLoop
lv == <<reg, cond, running, phase, batch, cur, stop>>
vars == <<tid, l, lv, pend, strict, dead>>
None == << >>
Th == 0 .. 9
TInit == /\ tid \in 1 .. NT /\ l = 1 /\ L!Init /\ pend = [t \in Th |-> None] /\ strict = FALSE /\ dead = {}
Set(t, v) == pend' = [pend EXCEPT ![t] = v]
Pending(t) == pend[t] # None /\ pend[t][1] = "p"
Done(t, r) == Set(t, <<"d", r>>)
B(x) == IF x THEN 1 ELSE 0
Other == UNCHANGED <<strict, dead>>
TStrict == Is("strict") /\ strict' = TRUE /\ UNCHANGED <<lv, pend, dead>> /\ Adv
TCall == /\ Is("c") /\ pend[Ev[2]] = None /\ Set(Ev[2], <<"p", Ev[3], Ev[4], Ev[5], Ev[6]>>)
         /\ UNCHANGED lv /\ Other /\ Adv
TRet == /\ Is("r") /\ pend[Ev[2]] = <<"d", Ev[3]>> /\ Set(Ev[2], None) /\ UNCHANGED lv /\ Other /\ Adv
THb == /\ Is("hb") /\ Ev[2] \notin dead /\ running = Ev[4]
       /\ \E x \in batch : x[2] = Ev[2] /\ x[3] = Ev[3] /\ L!Call(x)
       /\ UNCHANGED pend /\ Other /\ Adv
THe == /\ Is("he") /\ cur = Ev[2] /\ L!Called /\ UNCHANGED pend /\ Other /\ Adv
THx == /\ Is("hx") /\ Ev[2] \notin dead /\ Test(cur # Ev[2]) /\ dead' = dead \cup {Ev[2]}
       /\ UNCHANGED <<lv, pend, strict>> /\ Adv
\* No call hangs (a run goes on until it is stopped, others wait for it).
TQuiet == /\ Is("quiet") /\ Test(L!Quiet)
          /\ Test(\A t \in Th : pend[t] = None \/ (Pending(t) /\ pend[t][2] = "run2"))
          /\ UNCHANGED <<lv, pend>> /\ Other /\ Adv
TTook == Is("took") /\ Test(strict => Ev[3] = 0) /\ UNCHANGED <<lv, pend>> /\ Other /\ Adv
TFds == Is("fds") /\ Ev[2] = 0 /\ UNCHANGED <<lv, pend>> /\ Other /\ Adv
Silent == More /\ Ev[1] \notin {"c", "end", "fds", "hx", "strict", "took"}
\* What is collected is called later: look for it.
Later(h, e) == \E k \in l .. Len(Traces[tid]) : Traces[tid][k][1] = "hb" /\ Traces[tid][k][2] = h /\ Traces[tid][k][3] = e
TCollect == /\ Silent /\ \E f \in DOMAIN reg : L!Collect(f) /\ (reg[f].h # 0 => Later(reg[f].h, L!Eff(f)))
            /\ UNCHANGED pend /\ Other /\ Stay
\* Waits for the end of the iteration end with it.
Woken == pend' = [t \in Th |-> IF Pending(t) /\ pend[t][2] = "wait2" THEN <<"d", 0>> ELSE pend[t]]
Waits == \E t \in Th : Pending(t) /\ pend[t][2] = "wait2"
TIterate == Silent /\ (phase = "call" \/ Waits) /\ L!Iterate /\ Woken /\ Other /\ Stay
Lin(t) ==
  /\ Silent /\ Pending(t) /\ Other
  /\ LET o == pend[t][2]  f == pend[t][3]  e == pend[t][4]  h == pend[t][5]  in == f \in DOMAIN reg IN
     \/ o = "ins" /\ (IF in THEN UNCHANGED lv ELSE L!Insert(f, h, e)) /\ Done(t, B(~in))
     \/ o = "insd" /\ (IF in THEN UNCHANGED lv ELSE L!Insert(f, 0, 0)) /\ Done(t, IF in THEN -1 ELSE 0)
     \/ o = "iom" /\ (IF in THEN L!Modify(f, h, e) ELSE L!Insert(f, h, e)) /\ Done(t, B(~in))
     \/ o = "idod" /\ (IF in THEN L!Modify(f, 0, 0) ELSE L!Insert(f, 0, 0)) /\ Done(t, B(~in))
     \/ o = "mod" /\ (IF in THEN L!Modify(f, h, e) ELSE UNCHANGED lv) /\ Done(t, IF in THEN 0 ELSE -1)
     \/ o = "dis" /\ (IF in THEN L!Modify(f, 0, 0) ELSE UNCHANGED lv) /\ Done(t, IF in THEN 0 ELSE -1)
     \/ o = "rm" /\ (IF in THEN L!Remove(f) ELSE UNCHANGED lv) /\ Done(t, B(in))
     \/ o = "set" /\ L!SetCond(f, e) /\ Done(t, 0)
     \/ o = "wait" /\ UNCHANGED lv /\ (IF running = 0 THEN Done(t, 0) ELSE Set(t, <<"p", "wait2", 0, 0, 0>>))
     \/ o = "run" /\ L!Enter(t) /\ Set(t, <<"p", "run2", 0, 0, 0>>)
     \/ o = "run2" /\ L!Leave /\ pend' = [u \in Th |-> IF u = t \/ (Pending(u) /\ pend[u][2] = "wait2") THEN <<"d", 0>> ELSE pend[u]]
     \/ o = "stopa" /\ L!Stop /\ Done(t, 0)
     \/ o \in {"stop", "del"} /\ L!Stop /\ Set(t, <<"p", "stop2", 0, 0, 0>>)
     \/ o = "stop2" /\ running = 0 /\ UNCHANGED lv /\ Done(t, 0)
  /\ Stay
TEnd == /\ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED <<lv, pend>> /\ Other /\ Adv
TNext == \/ TStrict \/ TCall \/ TRet \/ THb \/ THe \/ THx \/ TQuiet \/ TTook \/ TFds \/ TCollect \/ TIterate \/ TEnd
         \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
