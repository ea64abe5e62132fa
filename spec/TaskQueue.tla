----------------------------- MODULE TaskQueue -----------------------------
(* Tasks submitted, taken in order of submission, run, at most `par` at a     *)
(* time.  A thread pool is one with `par` threads, a strand is one with       *)
(* par = 1, a participatory pool one with as many as take part.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES q,      \* submitted and not yet taken
          act,    \* taken (and maybe running): task -> how often
          gone,   \* tasks destroyed
          stop, par
qv == <<q, act, gone, stop, par>>
Init == q = << >> /\ act = << >> /\ gone = {} /\ stop = FALSE /\ par = 0
N(i) == IF i \in DOMAIN act THEN act[i] ELSE 0
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN act[x] + Sum(S \ {x})
Total == Sum(DOMAIN act)
Open(n) == par' = n /\ UNCHANGED <<q, act, gone, stop>>
Queued(i) == \E k \in 1 .. Len(q) : q[k] = i
Submit(i) == i \notin gone /\ ~Queued(i) /\ q' = Append(q, i) /\ UNCHANGED <<act, gone, stop, par>>
Take == /\ q # << >> /\ ~stop /\ Total < par
        /\ q' = Tail(q) /\ act' = (Head(q) :> N(Head(q)) + 1) @@ act /\ UNCHANGED <<gone, stop, par>>
Finish(i) == N(i) > 0 /\ act' = [act EXCEPT ![i] = @ - 1] /\ UNCHANGED <<q, gone, stop, par>>
Stop == stop' = TRUE /\ UNCHANGED <<q, act, gone, par>>
Idle == Total = 0
\* A task goes after its run, or unrun with the queue.
Destroy(i, withQueue) ==
  /\ i \notin gone /\ N(i) = 0 /\ (Queued(i) => withQueue /\ Idle)
  /\ gone' = gone \cup {i} /\ UNCHANGED <<q, act, stop, par>>
=============================================================================
