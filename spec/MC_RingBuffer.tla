---------------------------- MODULE MC_RingBuffer ----------------------------
(* The ring buffer's algorithm: a producer and a consumer that keep private   *)
(* offsets and share a fill level guarded by a mutex with one condition       *)
(* variable, woken one thread at a time.  Copying happens outside the mutex.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap, N, Chunk        \* capacity, elements to transfer, largest chunk
VARIABLES q, cap, wo, ro,      \* abstract state (history of the linearization)
          arr, avail,          \* the array and the shared fill level
          mux, waiting,        \* mutex owner, threads asleep on the condition
          pc, amt, sent, got   \* per thread: location, local amount
R == INSTANCE RingBuffer
vars == <<q, cap, wo, ro, arr, avail, mux, waiting, pc, amt, sent, got>>
P == "p"  C == "c"
T == {P, C}

Init == /\ R!InitCap(Cap)
        /\ arr = [i \in 0 .. Cap - 1 |-> 0] /\ avail = 0 /\ mux = "" /\ waiting = {}
        /\ pc = [t \in T |-> "wait"] /\ amt = [t \in T |-> 0] /\ sent = 0 /\ got = << >>

Ready(t) == IF t = P THEN avail # Cap ELSE avail # 0
Room(t) == IF t = P THEN R!Min(Cap - avail, Cap - wo) ELSE R!Min(avail, Cap - ro)
Left(t) == IF t = P THEN N - sent ELSE N - Len(got)
\* Wait for room/data: lock, test, sleep (releasing the mutex) or go on.
Lock(t) == /\ pc[t] = "wait" /\ mux = "" /\ Left(t) > 0
           /\ mux' = t /\ pc' = [pc EXCEPT ![t] = "test"]
           /\ UNCHANGED <<q, cap, wo, ro, arr, avail, waiting, amt, sent, got>>
TestC(t) == /\ pc[t] = "test" /\ mux = t /\ mux' = ""
            /\ IF Ready(t)
               THEN /\ \E k \in 1 .. R!Min(Chunk, R!Min(Left(t), Room(t))) : amt' = [amt EXCEPT ![t] = k]
                    /\ pc' = [pc EXCEPT ![t] = "copy"] /\ UNCHANGED waiting
               ELSE /\ waiting' = waiting \cup {t} /\ pc' = [pc EXCEPT ![t] = "sleep"]
                    /\ UNCHANGED amt
            /\ UNCHANGED <<q, cap, wo, ro, arr, avail, sent, got>>
Wake(t) == /\ pc[t] = "sleep" /\ t \notin waiting /\ mux = ""
           /\ mux' = t /\ pc' = [pc EXCEPT ![t] = "test"]
           /\ UNCHANGED <<q, cap, wo, ro, arr, avail, waiting, amt, sent, got>>
Spurious(t) == /\ t \in waiting /\ waiting' = waiting \ {t}
               /\ UNCHANGED <<q, cap, wo, ro, arr, avail, mux, pc, amt, sent, got>>
\* Copy without the mutex, on the private offset.
Copy(t) == /\ pc[t] = "copy" /\ pc' = [pc EXCEPT ![t] = "done"]
           /\ IF t = P
              THEN /\ arr' = [i \in DOMAIN arr |-> IF i >= wo /\ i < wo + amt[P]
                                                   THEN sent + (i - wo) + 1 ELSE arr[i]]
                   /\ UNCHANGED got
              ELSE /\ got' = got \o [i \in 1 .. amt[C] |-> arr[ro + i - 1]]
                   /\ UNCHANGED arr
           /\ UNCHANGED <<q, cap, wo, ro, avail, mux, waiting, amt, sent>>
\* Publish under the mutex, waking one sleeper.
Publish(t) ==
  /\ pc[t] = "done" /\ mux = ""
  /\ IF t = P
     THEN avail' = avail + amt[P] /\ sent' = sent + amt[P]
          /\ R!Put([i \in 1 .. amt[P] |-> sent + i])
     ELSE avail' = avail - amt[C] /\ UNCHANGED sent /\ R!Take(amt[C])
  /\ \/ waiting = {} /\ UNCHANGED waiting
     \/ \E w \in waiting : waiting' = waiting \ {w}
  /\ pc' = [pc EXCEPT ![t] = "wait"]
  /\ UNCHANGED <<arr, mux, amt, got>>
Step(t) == Lock(t) \/ TestC(t) \/ Wake(t) \/ Copy(t) \/ Publish(t)
Next == \E t \in T : Step(t) \/ Spurious(t)
\* No fairness for spurious wake-ups: progress must not depend on them.
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t)) /\ SF_vars(Lock(t)) /\ SF_vars(Wake(t)) /\ SF_vars(Publish(t))

Bounded == R!Bounded
LevelExact == avail = Len(q)
InOrder == \A i \in 1 .. Len(got) : got[i] = i
Content == \A i \in 1 .. Len(q) : arr[(ro + i - 1) % Cap] = q[i]
Delivered == <>(Len(got) = N)
=============================================================================
