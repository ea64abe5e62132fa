-------------------------- MODULE Trace_RingBuffer --------------------------
(* Producer = thread 1, consumer = thread 2.                                 *)
EXTENDS TraceBase
VARIABLES q, cap, wo, ro, pend, at, due   \* due: when a stop test must come at the latest
R == INSTANCE RingBuffer
vars == <<tid, l, q, cap, wo, ro, pend, at, due>>
clock == <<at, due>>
rb == <<q, cap, wo, ro>>
None == << >>
TInit == tid \in 1 .. NT /\ l = 1 /\ R!InitCap(0) /\ pend = [t \in 1 .. 2 |-> None] /\ at = 0 /\ due = [t \in 1 .. 2 |-> 0]

Set(t, v) == pend' = [pend EXCEPT ![t] = v]
Op(t) == pend[t][2]
Pending(t) == pend[t] # None /\ pend[t][1] = "p"
Done(t, r) == Set(t, <<"d", r>>)
Fin(t, r) == Done(t, r) /\ UNCHANGED rb

TNew == Is("new") /\ q' = << >> /\ cap' = Ev[2] /\ wo' = 0 /\ ro' = 0 /\ UNCHANGED pend /\ Adv
\* pend[t] = <<"p", op, argument, amount transferred so far, chunk in hand, short>>
Period == 10
\* Time passes only while all threads wait: for what is not there yet, and no
\* longer than until the next stop test.
TTime == /\ Is("t") /\ at' = Ev[2] /\ UNCHANGED <<rb, pend, due>> /\ Adv
         /\ Ev[2] > at => Test(\A t \in 1 .. 2 : Pending(t) =>
              /\ Op(t) \in {"wdt", "wst"} => due[t] >= Ev[2]
              /\ \/ Op(t) \in {"wd", "wdt"} /\ Len(q) = 0
                 \/ Op(t) \in {"ws", "wst"} /\ R!Space = 0)
TCall == /\ Is("c") /\ pend[Ev[2]] = None
         /\ Set(Ev[2], <<"p", Ev[3], Ev[4], 0, << >>, FALSE>>) /\ UNCHANGED <<rb, at>> /\ Adv
         /\ due' = [due EXCEPT ![Ev[2]] = at + Period]
TRet == /\ Is("r") /\ pend[Ev[2]] = <<"d", Ev[3]>> /\ Set(Ev[2], None) /\ UNCHANGED rb /\ Adv
\* A user-supplied actor is offered a contiguous stretch.
TAct ==
  /\ Is("act") /\ Pending(Ev[2])
  /\ LET t == Ev[2]  avail == Ev[3]  vals == Ev[4]  k == Ev[5]  p == pend[t] IN
       /\ p[5] = << >> /\ p[6] = FALSE /\ avail > 0 /\ k <= avail
       /\ IF t = 1 THEN /\ Op(t) = "wa" /\ avail <= R!SpaceUntilEnd
                        /\ Set(t, <<"p", "wa", p[3], p[4], SubSeq(vals, 1, k), k < avail>>)
                   ELSE /\ Op(t) = "ra" /\ avail <= R!DataUntilEnd
                        /\ vals = R!First(avail)
                        /\ Set(t, <<"p", "ra", p[3], p[4], SubSeq(vals, 1, k), k < avail>>)
  /\ UNCHANGED rb /\ Adv
\* The periodic stop test of a wait runs only while there is nothing to wake for;
\* when it throws, the wait is over.
TStop == /\ Is("stop") /\ Pending(Ev[2])
         /\ LET t == Ev[2] IN
              /\ \/ Op(t) = "wdt" /\ Len(q) = 0
                 \/ Op(t) = "wst" /\ R!Space = 0
              /\ IF Ev[3] = 1 THEN Done(t, -1) ELSE UNCHANGED pend
              /\ due' = [due EXCEPT ![t] = at + Period]
         /\ UNCHANGED <<rb, at>> /\ Adv

Ret(t) == LET k == RetIdx(t) IN IF k = 0 THEN -1 ELSE Traces[tid][k][3]
Lin(t) ==
  /\ More /\ Ev[1] # "c" /\ Pending(t)
  /\ LET p == pend[t]  a == p[3]  n == p[4] IN
     \/ /\ Op(t) = "w"
        /\ \/ \E j \in 1 .. Len(a) - n :
                 R!Put(SubSeq(a, n + 1, n + j)) /\ Set(t, <<"p", "w", a, n + j, << >>, FALSE>>)
           \* fewer elements only if the buffer was filled
           \/ (n = Len(a) \/ R!Space = 0) /\ Fin(t, n)
     \/ /\ Op(t) = "rd"
        /\ LET got == p[5] IN
             \/ \E j \in 1 .. a - n :
                   /\ j <= Len(q)
                   /\ R!Take(j) /\ Set(t, <<"p", "rd", a, n + j, got \o R!First(j), FALSE>>)
             \/ (n = a \/ Len(q) = 0) /\ Fin(t, got)
     \/ /\ Op(t) = "wa"
        /\ \/ /\ p[5] # << >> /\ R!Put(p[5])
              /\ Set(t, <<"p", "wa", a, n + Len(p[5]), << >>, p[6]>>)
           \/ p[5] = << >> /\ (n > 0 \/ p[6] \/ R!Space = 0) /\ Fin(t, n)
     \/ /\ Op(t) = "ra"
        /\ \/ /\ p[5] # << >> /\ R!Take(Len(p[5]))
              /\ Set(t, <<"p", "ra", a, n + Len(p[5]), << >>, p[6]>>)
           \/ p[5] = << >> /\ (n > 0 \/ p[6] \/ Len(q) = 0) /\ Fin(t, n)
     \* in-place use: amounts handed over and the answers given
     \/ Op(t) = "hw" /\ R!Put(a) /\ Done(t, R!Space - Len(a))
     \/ Op(t) = "hwu" /\ R!Put(a) /\ Done(t, R!Min(R!Space - Len(a), cap - wo'))
     \/ Op(t) = "hr" /\ R!Take(a) /\ Done(t, Len(q) - a)
     \/ Op(t) = "hru" /\ R!Take(a) /\ Done(t, R!Min(Len(q) - a, cap - ro'))
     \* questions
     \/ Op(t) = "sp" /\ Fin(t, R!Space)
     \/ Op(t) = "spu" /\ Fin(t, <<R!Space, R!SpaceUntilEnd, wo>>)
     \/ Op(t) = "full" /\ Fin(t, IF R!Space = 0 THEN 1 ELSE 0)
     \/ Op(t) = "da" /\ Fin(t, Len(q))
     \/ Op(t) = "dau" /\ Fin(t, <<Len(q), R!DataUntilEnd, ro>> \o R!First(R!DataUntilEnd))
     \/ Op(t) = "empty" /\ Fin(t, IF Len(q) = 0 THEN 1 ELSE 0)
     \* waits
     \/ Op(t) \in {"wd", "wdt"} /\ Len(q) > 0 /\ Fin(t, Len(q))
     \/ Op(t) \in {"ws", "wst"} /\ R!Space > 0 /\ Fin(t, R!Space)
  /\ Stay
Blocked(t) == /\ Pending(t)
              /\ \/ Op(t) = "wd" /\ Len(q) = 0
                 \/ Op(t) = "ws" /\ R!Space = 0
\* Sleeping for ever is right only for a wait whose condition does not hold.
THang == /\ Is("hang") /\ Ev[2] = "deadlock"
         /\ \E t \in 1 .. 2 : pend[t] # None
         /\ Test(\A t \in 1 .. 2 : pend[t] = None \/ Blocked(t))
         /\ UNCHANGED <<rb, pend>> /\ Adv
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED <<rb, pend>> /\ Adv
TNext == \/ TCall \/ TStop \/ TTime
         \/ (TNew \/ TRet \/ TAct \/ THang \/ TEnd \/ \E t \in 1 .. 2 : Lin(t)) /\ UNCHANGED clock
TSpec == TInit /\ [][TNext]_vars
Bounded == R!Bounded
=============================================================================
