------------------------------- MODULE Future -------------------------------
(* Promises, futures, packaged tasks and continuations.  Promises and futures *)
(* are handles (slots of the user) on shared states; an outcome is            *)
(* <<"no",0>>, <<"val",n>>, <<"exc",n>> or <<"broken",0>>.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES sh,   \* state -> outcome
          pr,   \* promise slot -> [m, f]: the state to set / to take the future of
          fu,   \* future slot -> state (0: none)
          co,   \* continuation -> [src, dst, st, o]
          nx    \* next state number
fv == <<sh, pr, fu, co, nx>>
No == <<"no", 0>>
Broken == <<"broken", 0>>
Init == sh = << >> /\ pr = << >> /\ fu = << >> /\ co = << >> /\ nx = 1

Put(f, k, v) == (k :> v) @@ f
P(p) == IF p \in DOMAIN pr THEN pr[p] ELSE [m |-> 0, f |-> 0]
F(f) == IF f \in DOMAIN fu THEN fu[f] ELSE 0
IsSet(s) == sh[s] # No
\* Giving up the right to set an unset state breaks its promise.
Abandoned(s) == IF s # 0 /\ sh[s] = No THEN [sh EXCEPT ![s] = Broken] ELSE sh

NewPromise(p) == /\ sh' = Put(Abandoned(P(p).m), nx, No)
                 /\ pr' = Put(pr, p, [m |-> nx, f |-> nx]) /\ nx' = nx + 1 /\ UNCHANGED <<fu, co>>
NoPromise(p) == /\ sh' = Abandoned(P(p).m) /\ pr' = Put(pr, p, [m |-> 0, f |-> 0])
                /\ UNCHANGED <<fu, co, nx>>
MovePromise(d, s) == /\ d # s /\ sh' = Abandoned(P(d).m)
                     /\ pr' = Put(Put(pr, d, P(s)), s, [m |-> 0, f |-> 0]) /\ UNCHANGED <<fu, co, nx>>
SwapPromises(a, b) == pr' = Put(Put(pr, a, P(b)), b, P(a)) /\ UNCHANGED <<sh, fu, co, nx>>
TakeFuture(f, p) == /\ P(p).f # 0 /\ fu' = Put(fu, f, P(p).f)
                    /\ pr' = Put(pr, p, [P(p) EXCEPT !.f = 0]) /\ UNCHANGED <<sh, co, nx>>
\* An outcome is set once; the promise gives up its hold.
SetOutcome(p, o) == /\ P(p).m # 0 /\ sh[P(p).m] = No /\ o # No
                    /\ sh' = [sh EXCEPT ![P(p).m] = o]
                    /\ pr' = Put(pr, p, [P(p) EXCEPT !.m = 0]) /\ UNCHANGED <<fu, co, nx>>
DropFuture(f) == fu' = Put(fu, f, 0) /\ UNCHANGED <<sh, pr, co, nx>>
MoveFuture(d, s) == d # s /\ fu' = Put(Put(fu, d, F(s)), s, 0) /\ UNCHANGED <<sh, pr, co, nx>>
SwapFutures(a, b) == fu' = Put(Put(fu, a, F(b)), b, F(a)) /\ UNCHANGED <<sh, pr, co, nx>>
\* A future made ready from the start.
MakeFuture(f, o) == /\ sh' = Put(sh, nx, o) /\ fu' = Put(fu, f, nx) /\ nx' = nx + 1
                    /\ UNCHANGED <<pr, co>>
CanTake(f) == F(f) # 0 /\ IsSet(F(f))
Take(f, o) == CanTake(f) /\ sh[F(f)] = o /\ DropFuture(f)

\* Continuations.
Then(f, g, c) == /\ F(f) # 0 /\ c \notin DOMAIN co
                 /\ co' = Put(co, c, [src |-> F(f), dst |-> nx, st |-> "wait", o |-> No])
                 /\ sh' = Put(sh, nx, No) /\ fu' = Put(Put(fu, f, 0), g, nx) /\ nx' = nx + 1
                 /\ UNCHANGED pr
Run(c, o) == /\ c \in DOMAIN co /\ co[c].st = "wait" /\ IsSet(co[c].src) /\ sh[co[c].src] = o
             /\ co' = [co EXCEPT ![c].st = "run"] /\ UNCHANGED <<sh, pr, fu, nx>>
\* It ends with an outcome of its own, or with that of the future in slot g.
RanOutcome(c, o) == /\ c \in DOMAIN co /\ co[c].st = "run"
                    /\ co' = [co EXCEPT ![c].st = "ended", ![c].o = o] /\ UNCHANGED <<sh, pr, fu, nx>>
RanFuture(c, g) == /\ c \in DOMAIN co /\ co[c].st = "run"
                   /\ co' = [co EXCEPT ![c].st = IF F(g) = 0 THEN "ended" ELSE "chained",
                                       ![c].o = IF F(g) = 0 THEN Broken ELSE @,
                                       ![c].src = F(g)]
                   /\ fu' = Put(fu, g, 0) /\ UNCHANGED <<sh, pr, nx>>
Resolve(c) == /\ \/ co[c].st = "ended" /\ sh' = [sh EXCEPT ![co[c].dst] = co[c].o]
                 \/ co[c].st = "chained" /\ IsSet(co[c].src)
                    /\ sh' = [sh EXCEPT ![co[c].dst] = sh[co[c].src]]
              /\ co' = [co EXCEPT ![c].st = "done"] /\ UNCHANGED <<pr, fu, nx>>
AllRan == \A c \in DOMAIN co : co[c].st = "done"
Busy(c) == co[c].st \in {"run", "ended", "chained"}
=============================================================================
