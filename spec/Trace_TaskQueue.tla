-------------------------- MODULE Trace_TaskQueue --------------------------
(* ["strict"] (time passes only while all wait); ["open",par]; ["new",id]     *)
(* ["c",t,op,a,now] ["r",t,res]; ["b",id,t,now] ["e",id,t,now] (a task begins *)
(* and ends, t # 0: inside the call of t) ["x",id,t,now] (ends by exception); *)
(* ["dt",id] (its destruction).                                               *)
EXTENDS TraceBase
VARIABLES q, act, gone, stop, par, known, run, pend, cnt, le, strict, stopAt, del
Q == INSTANCE TaskQueue
qv == <<q, act, gone, stop, par>>
rest == <<known, run, pend, cnt, le, strict, stopAt, del>>
vars == <<tid, l, qv, rest>>
None == << >>
Th == 0 .. 9
TInit == /\ tid \in 1 .. NT /\ l = 1 /\ Q!Init /\ known = {} /\ run = << >>
         /\ pend = [t \in Th |-> None] /\ cnt = [t \in Th |-> 0] /\ le = [t \in Th |-> 0]
         /\ strict = FALSE /\ stopAt = 0 /\ del = FALSE
Set(t, v) == pend' = [pend EXCEPT ![t] = v]
Other == UNCHANGED <<known, run, cnt, le, strict, stopAt, del>>
Pending(t) == pend[t] # None /\ pend[t][1] = "p"
Done(t, r) == Set(t, <<"d", r>>)
Fin(t, r) == Done(t, r) /\ UNCHANGED qv /\ Other
B(x) == IF x THEN 1 ELSE 0
R(i) == IF i \in DOMAIN run THEN run[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Takes == {"part", "pfor", "ponce", "poncef"}
TStrict == Is("strict") /\ strict' = TRUE /\ UNCHANGED <<qv, known, run, pend, cnt, le, stopAt, del>> /\ Adv
TOpen == Is("open") /\ Q!Open(Ev[2]) /\ UNCHANGED rest /\ Adv
TNew == /\ Is("new") /\ Ev[2] \notin known /\ known' = known \cup {Ev[2]}
        /\ UNCHANGED <<qv, run, pend, cnt, le, strict, stopAt, del>> /\ Adv
TCall == /\ Is("c") /\ pend[Ev[2]] = None
         /\ Set(Ev[2], <<"p", Ev[3], Ev[4], Ev[5]>>)
         /\ cnt' = [cnt EXCEPT ![Ev[2]] = 0] /\ le' = [le EXCEPT ![Ev[2]] = Ev[5]]
         /\ UNCHANGED <<qv, known, run, strict, stopAt, del>> /\ Adv
TRet == /\ Is("r") /\ pend[Ev[2]] # None /\ pend[Ev[2]][1] = "d"
        /\ IF Len(pend[Ev[2]]) = 2 THEN pend[Ev[2]][2] = Ev[3]
           \* [status, time] of a timed participation, <<"d", status, deadline>>
           ELSE LET s == pend[Ev[2]][2]  d == pend[Ev[2]][3] IN
                  /\ s = Ev[3][1]
                  /\ s = 1 => Ev[3][2] >= d /\ (strict => Ev[3][2] <= Max2(d, le[Ev[2]]))
                  \* not while there was something to do (deadlines are odd, tasks come at even times)
                  /\ s = 1 /\ strict /\ le[Ev[2]] < d => q = << >>
                  /\ s = 2 /\ strict => Ev[3][2] <= Max2(stopAt, le[Ev[2]])
        /\ Set(Ev[2], None) /\ UNCHANGED qv /\ Other /\ Adv
\* A task begins: it has been taken; in the call of a participant.
TB == /\ Is("b") /\ R(Ev[2]) < Q!N(Ev[2]) /\ run' = (Ev[2] :> R(Ev[2]) + 1) @@ run
      /\ Ev[3] # 0 => Pending(Ev[3]) /\ pend[Ev[3]][2] \in Takes
                       /\ (pend[Ev[3]][2] \in {"ponce", "poncef"} => cnt[Ev[3]] = 0)
      \* in strict time what stops comes before all later tasks
      /\ Test(strict => \A t \in Th : Pending(t) /\ pend[t][2] \in {"stop", "sj", "ssj", "del"} => pend[t][4] >= Ev[4])
      /\ cnt' = [cnt EXCEPT ![Ev[3]] = @ + 1]
      /\ UNCHANGED <<qv, known, pend, le, strict, stopAt, del>> /\ Adv
TE == /\ (Is("e") \/ Is("x")) /\ R(Ev[2]) > 0 /\ run' = [run EXCEPT ![Ev[2]] = @ - 1]
      /\ Q!Finish(Ev[2]) /\ le' = [le EXCEPT ![Ev[3]] = Ev[4]]
      /\ IF Ev[1] = "x" THEN Done(Ev[3], -1) ELSE UNCHANGED pend
      /\ UNCHANGED <<known, cnt, strict, stopAt, del>> /\ Adv
TDt == /\ Is("dt") /\ Ev[2] \in known /\ Q!Destroy(Ev[2], del)
       /\ UNCHANGED rest /\ Adv
TTake == /\ More /\ Ev[1] \notin {"c", "end"} /\ Q!Take /\ UNCHANGED rest /\ Stay
StopNow(t) == /\ Q!Stop /\ stopAt' = (IF stop THEN stopAt ELSE pend[t][4])
              /\ UNCHANGED <<known, run, cnt, le, strict>>
Inside(t) == Pending(t) /\ pend[t][2] \in Takes /\ cnt[t] > 0
Lin(t) ==
  /\ More /\ Ev[1] \notin {"c", "end"} /\ Pending(t)
  /\ LET o == pend[t][2]  a == pend[t][3] IN
     \/ o = "submit" /\ Q!Submit(a) /\ Done(t, 0) /\ Other
     \/ o = "stop" /\ StopNow(t) /\ Done(t, 0) /\ UNCHANGED del
     \/ o = "sn" /\ Fin(t, B(stop))
     \* the end of all workers
     \/ o = "join" /\ stop /\ Q!Idle /\ Fin(t, 0)
     \/ o = "sj" /\ StopNow(t) /\ Set(t, <<"p", "sj2", 0, 0>>) /\ UNCHANGED del
     \* of a strand: it is told whether it was the first
     \/ o = "ssj" /\ StopNow(t) /\ Set(t, <<"p", "sj2", B(~stop), 0>>) /\ UNCHANGED del
     \/ o = "sj2" /\ Q!Idle /\ Fin(t, a)
     \* from inside a task: no waiting
     \/ o = "smi" /\ StopNow(t) /\ Done(t, B(~stop)) /\ UNCHANGED del
     \/ o = "del" /\ StopNow(t) /\ Set(t, <<"p", "del2", 0, 0>>) /\ del' = TRUE
     \/ o = "del2" /\ Q!Idle /\ (\A u \in Th : ~Inside(u)) /\ Fin(t, 0)
     \* the end of all participation
     \/ o = "pjoin" /\ (\A u \in Th : ~Inside(u)) /\ Fin(t, 0)
     \/ o = "part" /\ stop /\ Fin(t, 0)
     \/ o = "ponce" /\ cnt[t] = 1 /\ Fin(t, 1)
     \/ o = "ponce" /\ cnt[t] = 0 /\ stop /\ Fin(t, 0)
     \/ o \in {"pfor", "poncef"} /\ (o = "poncef" => cnt[t] = 0)
        /\ UNCHANGED qv /\ Other /\ (\/ Set(t, <<"d", 1, a>>)
                                     \/ stop /\ Set(t, <<"d", 2, a>>))
     \/ o = "poncef" /\ cnt[t] = 1 /\ UNCHANGED qv /\ Other /\ Set(t, <<"d", 0, a>>)
  /\ Stay
\* Participants (and joins) may wait for ever as long as nobody stops the pool
\* and there is nothing to do.
THang == /\ Is("hang") /\ Ev[2] = "deadlock" /\ ~stop /\ q = << >>
         /\ \E t \in Th : pend[t] # None
         /\ Test(\A t \in Th : pend[t] = None \/ (Pending(t) /\ pend[t][2] \in {"part", "ponce", "join", "pjoin"}))
         /\ UNCHANGED <<qv, rest>> /\ Adv
TEnd == /\ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ gone = known /\ UNCHANGED <<qv, rest>> /\ Adv
TNext == \/ TStrict \/ TOpen \/ TNew \/ TCall \/ TRet \/ TB \/ TE \/ TDt \/ TTake \/ THang \/ TEnd
         \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
