----------------------------- MODULE TraceBase -----------------------------
(* What every trace specification shares: the histories recorded from the   *)
(* real code (one JSON array of events per line of $TRACES), the position   *)
(* in the history under validation, and acceptance.  A history is accepted  *)
(* iff some behaviour of the trace specification consumes all its events.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)

VARIABLES tid, l

Ev == Traces[tid][l]
More == l <= Len(Traces[tid])
Is(tag) == More /\ Ev[1] = tag
Adv == l' = l + 1 /\ tid' = tid
Stay == UNCHANGED <<l, tid>>
\* Internal (unrecorded) steps are needed only right before a return or an
\* observation; asking for them there only keeps the search small and loses
\* no explanation.
NextIs(tags) == More /\ Ev[1] \in tags

\* The position of the next return event of t (0: it never returns), to guess
\* results from the record instead of enumerating them.
RECURSIVE RetFrom(_, _)
RetFrom(t, k) == IF k > Len(Traces[tid]) THEN 0
                 ELSE IF Traces[tid][k][1] = "r" /\ Traces[tid][k][2] = t THEN k
                 ELSE RetFrom(t, k + 1)
RetIdx(t) == RetFrom(t, l)
\* Universal tests inside actions are wrapped so that TLC evaluates them as
\* values (as actions it would expand them recursively).
Test(b) == b = TRUE

ASSUME \A i \in 1 .. NT : TLCSet(i, 0)
\* CONSTRAINT: remembers how far each history was matched (-workers 1).
Progress == IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE
\* POSTCONDITION
Report ==
  /\ \A i \in 1 .. NT :
       \/ TLCGet(i) = Len(Traces[i]) + 1
       \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
  /\ PrintT("TraceReport done")
=============================================================================
