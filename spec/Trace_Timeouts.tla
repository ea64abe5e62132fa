--------------------------- MODULE Trace_Timeouts ---------------------------
(* ["strict"]: time passes only while everybody waits.  ["make",id]           *)
(* ["c",t,op,id,deadline,now] ["r",t,0]; ["run",id,now] ["keep",id]           *)
(* ["ran",id,now] ["dt",id].                                                  *)
EXTENDS TraceBase
VARIABLES st, dl, at, cur, idle, stop, pend, strict, ran
T == INSTANCE Timeouts
tv == <<st, dl, at, cur, idle, stop>>
vars == <<tid, l, tv, pend, strict, ran>>
None == << >>
Th == 0 .. 9
TInit == /\ tid \in 1 .. NT /\ l = 1 /\ T!Init /\ pend = [t \in Th |-> None]
         /\ strict = FALSE /\ ran = 0
Set(t, v) == pend' = [pend EXCEPT ![t] = v] /\ UNCHANGED <<strict, ran>>
Same == UNCHANGED <<pend, strict, ran>>
Pending(t) == pend[t] # None /\ pend[t][1] = "p"
TStrict == Is("strict") /\ strict' = TRUE /\ UNCHANGED <<tv, pend, ran>> /\ Adv
TMake == Is("make") /\ T!Make(Ev[2]) /\ Same /\ Adv
TCall == /\ Is("c") /\ pend[Ev[2]] = None
         /\ Set(Ev[2], <<"p", Ev[3], Ev[4], Ev[5], Ev[6]>>) /\ UNCHANGED tv /\ Adv
TRet == /\ Is("r") /\ pend[Ev[2]] = <<"d", Ev[3]>> /\ Set(Ev[2], None) /\ UNCHANGED tv /\ Adv
TRun == /\ Is("run") /\ T!Runs(Ev[2], Ev[3]) /\ ran = 0 /\ ran' = Ev[2]
        /\ (strict => Ev[3] = T!Due(Ev[2])) /\ UNCHANGED <<tv, pend, strict>> /\ Adv
TKeep == Is("keep") /\ ran = Ev[2] /\ T!Keep(Ev[2]) /\ Same /\ Adv
TRan == Is("ran") /\ ran = Ev[2] /\ ran' = 0 /\ T!Ran(Ev[2], Ev[3]) /\ UNCHANGED <<pend, strict>> /\ Adv
TDt == Is("dt") /\ T!Destroy(Ev[2]) /\ Same /\ Adv
\* The next task to run may have been taken some time before.
RECURSIVE NextRun(_)
NextRun(k) == IF k > Len(Traces[tid]) THEN 0
              ELSE IF Traces[tid][k][1] = "run" THEN Traces[tid][k][2] ELSE NextRun(k + 1)
Take == More /\ Ev[1] \notin {"c", "end"} /\ T!Take(NextRun(l)) /\ Same /\ Stay
Lin(t) ==
  /\ More /\ Ev[1] \notin {"c", "end"} /\ Pending(t)
  /\ LET o == pend[t][2]  a == pend[t][3]  b == pend[t][4]  n == pend[t][5] IN
     \/ o = "add" /\ T!Add(a, b, n) /\ Set(t, <<"d", 0>>)
     \/ o = "stop" /\ (strict /\ ~stop => T!NoneLate(n)) /\ T!Stop /\ Set(t, <<"d", 0>>)
     \/ o = "del" /\ (strict /\ ~stop => T!NoneLate(n)) /\ T!Stop
                  /\ Set(t, <<"p", "del2", a, b, n>>)
     \/ o = "del2" /\ T!Over /\ T!In = {} /\ UNCHANGED tv /\ Set(t, <<"d", 0>>)
  /\ Stay
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED tv /\ Same /\ Adv
        /\ Test(\A i \in DOMAIN st : st[i] = "gone")
TNext == \/ TStrict \/ TMake \/ TCall \/ TRet \/ TRun \/ TKeep \/ TRan \/ TDt \/ Take \/ TEnd
         \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
