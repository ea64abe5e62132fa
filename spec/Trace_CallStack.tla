-------------------------- MODULE Trace_CallStack --------------------------
(* Histories of call stacks: threads 0 to 4, stacks 1 to 3.                   *)
EXTENDS TraceBase
VARIABLES st, calls, exc
C == INSTANCE CallStack
vars == <<tid, l, st, calls, exc>>
Th == 0 .. 4
TInit == tid \in 1 .. NT /\ l = 1 /\ st = [t \in Th |-> [n \in 1 .. 3 |-> << >>]] /\ calls = [t \in Th |-> << >>] /\ exc = [t \in Th |-> FALSE]
\* calls[t]: the stacks entered (0: a place that catches exceptions).
Last(t) == calls[t][Len(calls[t])]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Set(t, x) == calls' = [calls EXCEPT ![t] = x]
Exc(t, b) == exc[t] # b /\ exc' = [exc EXCEPT ![t] = b]
RECURSIVE Count(_, _)
Count(s, n) == IF s = << >> THEN 0 ELSE Count(Pop(s), n) + (IF s[Len(s)] = n THEN 1 ELSE 0)
Unwind(t, k) ==
  LET off == SubSeq(calls[t], k + 1, Len(calls[t])) IN
  /\ st' = [st EXCEPT ![t] = [n \in 1 .. 3 |-> SubSeq(@[n], Count(off, n) + 1, Len(@[n]))]]
  /\ Set(t, SubSeq(calls[t], 1, k))
LastOf(t, x) == LET ks == {k \in 1 .. Len(calls[t]) : calls[t][k] = x}
                IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
Op ==
  \/ Is("in") /\ C!Enter(Ev[2], Ev[3], Ev[4], Ev[5]) /\ Set(Ev[2], Append(calls[Ev[2]], Ev[3])) /\ UNCHANGED exc
  \/ Is("inx") /\ UNCHANGED <<st, calls, exc>>
  \/ Is("out") /\ ~exc[Ev[2]] /\ Last(Ev[2]) = Ev[3] /\ C!Leave(Ev[2], Ev[3]) /\ Set(Ev[2], Pop(calls[Ev[2]])) /\ UNCHANGED exc
  \/ Is("try") /\ UNCHANGED <<st, exc>> /\ Set(Ev[2], Append(calls[Ev[2]], 0))
  \/ Is("tried") /\ ~exc[Ev[2]] /\ UNCHANGED <<st, exc>> /\ Last(Ev[2]) = 0 /\ Set(Ev[2], Pop(calls[Ev[2]]))
  \/ Is("boom") /\ UNCHANGED <<st, calls>> /\ Exc(Ev[2], TRUE)
  \* Unwinding leaves the contexts one by one, the innermost first.
  \/ Is("undo") /\ LET t == Ev[2] IN
     /\ IF exc[t] THEN LastOf(t, 3) > LastOf(t, 0) /\ Unwind(t, LastOf(t, 3) - 1) ELSE UNCHANGED <<st, calls>>
     /\ Ev[4] = st'[t][3] /\ UNCHANGED exc
  \/ Is("caught") /\ LET k == LastOf(Ev[2], 0) IN
       k > 0 /\ 3 \notin {calls[Ev[2]][i] : i \in k .. Len(calls[Ev[2]])} /\ Unwind(Ev[2], k - 1) /\ Exc(Ev[2], FALSE)
  \/ Is("look") /\ UNCHANGED <<st, calls, exc>> /\ Ev[4] = st[Ev[2]][Ev[3]]
  \/ Is("find") /\ UNCHANGED <<st, calls, exc>> /\ Ev[5] = C!Find(Ev[2], Ev[3], Ev[4])
  \/ Is("val") /\ C!SetVal(Ev[2], Ev[3], Ev[4], Ev[5]) /\ UNCHANGED <<calls, exc>>
  \/ Is("key") /\ C!SetKey(Ev[2], Ev[3], Ev[4], Ev[5]) /\ UNCHANGED <<calls, exc>>
  \/ Is("idle") /\ (IF exc[Ev[2]] THEN Exc(Ev[2], FALSE) /\ Unwind(Ev[2], 0) ELSE calls[Ev[2]] = << >> /\ UNCHANGED <<st, calls, exc>>)
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED <<st, calls, exc>>
TNext == Op /\ Adv
TSpec == TInit /\ [][TNext]_vars
=============================================================================
