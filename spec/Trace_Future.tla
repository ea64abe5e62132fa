---------------------------- MODULE Trace_Future ----------------------------
EXTENDS TraceBase
VARIABLES sh, pr, fu, co, nx, pend
A == INSTANCE Future
fv == <<sh, pr, fu, co, nx>>
vars == <<tid, l, fv, pend>>
None == << >>
Th == 0 .. 6
TInit == tid \in 1 .. NT /\ l = 1 /\ A!Init /\ pend = [t \in Th |-> None]
Set(t, v) == pend' = [pend EXCEPT ![t] = v]
Pending(t) == pend[t] # None /\ pend[t][1] = "p"
Done(t, r) == Set(t, <<"d", r>>)
Fin(t, r) == Done(t, r) /\ UNCHANGED fv
B(x) == IF x THEN 1 ELSE 0
\* ["c", thread, op, a, b]
TCall == /\ Is("c") /\ pend[Ev[2]] = None
         /\ Set(Ev[2], <<"p", Ev[3], Ev[4], Ev[5]>>) /\ UNCHANGED fv /\ Adv
\* Time passes only while all threads wait: no wait lasts for longer than told.
Strict == Traces[tid][1][1] = "strict"
TStrict == Is("strict") /\ l = 1 /\ UNCHANGED <<fv, pend>> /\ Adv
TRet == /\ Is("r") /\ pend[Ev[2]] # None /\ pend[Ev[2]][1] = "d"
        /\ LET p == pend[Ev[2]] IN
             IF Len(p) = 2 THEN p[2] = Ev[3]
             \* a timed wait that failed lasted for its full time
             ELSE Ev[3][1] = p[2] /\ (p[2] = 0 => Ev[3][2] >= p[3]) /\ (Strict => Ev[3][2] <= p[3])
        /\ Set(Ev[2], None) /\ UNCHANGED fv /\ Adv
\* The function of a packaged task: runs once per invocation, gives the outcome.
TFn == /\ Is("fn") /\ Pending(Ev[2]) /\ pend[Ev[2]][2] = "ptc"
       /\ Set(Ev[2], <<"p", "ptset", pend[Ev[2]][3], Ev[3]>>) /\ UNCHANGED fv /\ Adv
TRun == Is("run") /\ A!Run(Ev[2], Ev[3]) /\ UNCHANGED pend /\ Adv
TRan == /\ Is("ran") /\ UNCHANGED pend /\ Adv
        /\ IF Ev[3] = "fut" THEN A!RanFuture(Ev[2], Ev[4])
                            ELSE A!RanOutcome(Ev[2], <<Ev[3], Ev[4]>>)
Lin(t) ==
  /\ More /\ Ev[1] \notin {"c", "end"} /\ Pending(t)
  /\ LET o == pend[t][2]  a == pend[t][3]  b == pend[t][4] IN
     \/ o = "newp" /\ A!NewPromise(a) /\ Done(t, 0)
     \/ o = "delp" /\ A!NoPromise(a) /\ Done(t, 0)
     \/ o = "movp" /\ A!MovePromise(a, b) /\ Done(t, 0)
     \/ o = "swpp" /\ A!SwapPromises(a, b) /\ Done(t, 0)
     \/ o = "takf" /\ A!TakeFuture(a, b) /\ Done(t, 0)
     \/ o = "setv" /\ A!SetOutcome(a, <<"val", b>>) /\ Done(t, 0)
     \* a value whose construction throws is not set; the promise lives on
     \/ o = "sett" /\ A!P(a).m # 0 /\ Fin(t, 0)
     \/ o = "sete" /\ A!SetOutcome(a, <<"exc", b>>) /\ Done(t, 0)
     \/ o = "aban" /\ A!SetOutcome(a, A!Broken) /\ Done(t, 0)
     \/ o = "ptset" /\ A!SetOutcome(a, b) /\ Done(t, 0)
     \/ o = "pval" /\ Fin(t, B(A!P(a).m # 0))
     \/ o = "phas" /\ Fin(t, B(A!P(a).f # 0))
     \/ o = "delf" /\ A!DropFuture(a) /\ Done(t, 0)
     \/ o = "movf" /\ A!MoveFuture(a, b) /\ Done(t, 0)
     \/ o = "swpf" /\ A!SwapFutures(a, b) /\ Done(t, 0)
     \/ o = "mkv" /\ A!MakeFuture(a, <<"val", b>>) /\ Done(t, 0)
     \/ o = "mke" /\ A!MakeFuture(a, <<"exc", b>>) /\ Done(t, 0)
     \/ o = "mkb" /\ A!MakeFuture(a, A!Broken) /\ Done(t, 0)
     \/ o = "fval" /\ Fin(t, B(A!F(a) # 0))
     \/ o = "frdy" /\ A!F(a) # 0 /\ Fin(t, B(A!IsSet(A!F(a))))
     \/ o = "wait" /\ A!CanTake(a) /\ Fin(t, 0)
     \/ o = "wfor" /\ A!F(a) # 0 /\ Set(t, <<"d", B(A!IsSet(A!F(a))), b>>) /\ UNCHANGED fv
     \/ o = "take" /\ A!CanTake(a) /\ A!Take(a, sh[A!F(a)]) /\ Done(t, sh[A!F(a)])
     \* out of memory: as if nothing had been asked for
     \/ o \in {"newp", "then", "mkv", "mke", "mkb"} /\ Fin(t, -1)
        /\ \E k \in 1 .. l : Traces[tid][k][1] = "oom"
     \/ o = "then" /\ A!Then(a, b \div 100, b % 100) /\ Done(t, 0)
  /\ Stay
Internal == /\ More /\ Ev[1] # "c" /\ \E c \in DOMAIN co : A!Resolve(c)
            /\ UNCHANGED pend /\ Stay
Blocked(t) ==
  LET o == pend[t][2]  a == pend[t][3] IN
    o \in {"wait", "take"} /\ A!F(a) # 0 /\ ~A!IsSet(A!F(a))
\* A continuation chained to an unset future blocks the thread that runs it.
Chained == \E c \in DOMAIN co : co[c].st = "chained" /\ ~A!IsSet(co[c].src)
THang == /\ Is("hang") /\ Ev[2] = "deadlock"
         /\ \E t \in Th : pend[t] # None
         /\ Test(\A t \in Th : pend[t] = None \/ (Pending(t) /\ (Blocked(t) \/ Chained)))
         /\ UNCHANGED <<fv, pend>> /\ Adv
TOom == Is("oom") /\ UNCHANGED <<fv, pend>> /\ Adv
\* In the end, all promises are gone: every continuation has run.
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ A!AllRan /\ UNCHANGED <<fv, pend>> /\ Adv
\* Values constructed and not destroyed at a moment when nobody holds any.
TBal == Is("balance") /\ Ev[2] = 0 /\ UNCHANGED <<fv, pend>> /\ Adv
TNext == TStrict \/ TCall \/ TRet \/ TFn \/ TRun \/ TRan \/ THang \/ TEnd \/ TBal \/ TOom
         \/ Internal \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
