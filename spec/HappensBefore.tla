---------------------------- MODULE HappensBefore ----------------------------
(* Happens-before of the C++ memory model, by vector clocks.  A recorded       *)
(* access is possible only if it races with no earlier one.                    *)
EXTENDS Naturals, Sequences
CONSTANTS Th          \* threads 0 .. N
VARIABLES vc,         \* thread -> its clock
          acqp,       \* thread -> clocks read by relaxed loads (for acquire fences)
          relf,       \* thread -> clock at its last release fence
          rel,        \* location -> clock its current value releases
          own,        \* location -> thread of the last release store (N+1: none)
          pw, pr,     \* location -> thread -> epoch of its last plain write / read
          aw, ar,     \* location -> thread -> epoch of its last atomic write / read
          mx,         \* mutex -> clock at its last release
          sc, ec      \* thread -> clock of its creator / at its exit
hb == <<vc, acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec>>
Zero == [t \in Th |-> 0]
MaxN(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in Th |-> MaxN(a[t], b[t])]
Nobody == 99
InitHB(Locs) ==
  /\ vc = [t \in Th |-> [Zero EXCEPT ![t] = 1]] /\ acqp = [t \in Th |-> Zero]
  /\ relf = [t \in Th |-> Zero]
  /\ rel = [x \in Locs |-> Zero] /\ own = [x \in Locs |-> Nobody]
  /\ pw = rel /\ pr = rel /\ aw = rel /\ ar = rel /\ mx = rel
  /\ sc = [t \in Th |-> Zero] /\ ec = [t \in Th |-> Zero]

\* All recorded accesses of this kind happen before t's current step.
Ordered(acc, t) == (\A u \in Th : acc[u] <= vc[t][u]) = TRUE
Epoch(t) == vc[t][t]
Tick(v, t) == [v EXCEPT ![t] = @ + 1]

Read(t, x) == /\ Ordered(pw[x], t) /\ Ordered(aw[x], t)
              /\ pr' = [pr EXCEPT ![x][t] = Epoch(t)]
              /\ UNCHANGED <<vc, acqp, relf, rel, own, pw, aw, ar, mx, sc, ec>>
Write(t, x) == /\ Ordered(pw[x], t) /\ Ordered(pr[x], t) /\ Ordered(aw[x], t) /\ Ordered(ar[x], t)
               /\ pw' = [pw EXCEPT ![x][t] = Epoch(t)]
               /\ UNCHANGED <<vc, acqp, relf, rel, own, pr, aw, ar, mx, sc, ec>>
\* Atomic accesses conflict with plain ones only.
Acquiring(o) == o % 2 = 1
Releasing(o) == (o \div 2) % 2 = 1
ALoad(t, x, o) ==
  /\ Ordered(pw[x], t)
  /\ ar' = [ar EXCEPT ![x][t] = Epoch(t)]
  /\ IF Acquiring(o) THEN vc' = [vc EXCEPT ![t] = Join(@, rel[x])] /\ UNCHANGED acqp
                     ELSE acqp' = [acqp EXCEPT ![t] = Join(@, rel[x])] /\ UNCHANGED vc
  /\ UNCHANGED <<relf, rel, own, pw, pr, aw, mx, sc, ec>>
AStore(t, x, o) ==
  /\ Ordered(pw[x], t) /\ Ordered(pr[x], t)
  /\ aw' = [aw EXCEPT ![x][t] = Epoch(t)]
  /\ IF Releasing(o)
     THEN rel' = [rel EXCEPT ![x] = vc[t]] /\ own' = [own EXCEPT ![x] = t]
          /\ vc' = [vc EXCEPT ![t] = Tick(@, t)]
     ELSE rel' = [rel EXCEPT ![x] = IF own[x] = t THEN Join(@, relf[t]) ELSE relf[t]]
          /\ own' = [own EXCEPT ![x] = IF @ = t THEN t ELSE Nobody] /\ UNCHANGED vc
  /\ UNCHANGED <<acqp, relf, pw, pr, ar, mx, sc, ec>>
ARmw(t, x, o) ==
  /\ Ordered(pw[x], t) /\ Ordered(pr[x], t)
  /\ aw' = [aw EXCEPT ![x][t] = Epoch(t)]
  /\ LET v == IF Acquiring(o) THEN Join(vc[t], rel[x]) ELSE vc[t] IN
       /\ acqp' = IF Acquiring(o) THEN acqp ELSE [acqp EXCEPT ![t] = Join(@, rel[x])]
       /\ IF Releasing(o)
          THEN rel' = [rel EXCEPT ![x] = Join(@, v)] /\ vc' = [vc EXCEPT ![t] = Tick(v, t)]
          ELSE rel' = [rel EXCEPT ![x] = Join(@, relf[t])] /\ vc' = [vc EXCEPT ![t] = v]
  /\ UNCHANGED <<relf, own, pw, pr, ar, mx, sc, ec>>
Fence(t, o) ==
  LET v == IF Acquiring(o) THEN Join(vc[t], acqp[t]) ELSE vc[t] IN
  /\ relf' = IF Releasing(o) THEN [relf EXCEPT ![t] = v] ELSE relf
  /\ vc' = [vc EXCEPT ![t] = IF Releasing(o) THEN Tick(v, t) ELSE v]
  /\ UNCHANGED <<acqp, rel, own, pw, pr, aw, ar, mx, sc, ec>>
Lock(t, m) == /\ vc' = [vc EXCEPT ![t] = Join(@, mx[m])]
              /\ UNCHANGED <<acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec>>
Unlock(t, m) == /\ mx' = [mx EXCEPT ![m] = Join(@, vc[t])] /\ vc' = [vc EXCEPT ![t] = Tick(@, t)]
                /\ UNCHANGED <<acqp, relf, rel, own, pw, pr, aw, ar, sc, ec>>
Create(t, c) == /\ sc' = [sc EXCEPT ![c] = vc[t]] /\ vc' = [vc EXCEPT ![t] = Tick(@, t)]
                /\ UNCHANGED <<acqp, relf, rel, own, pw, pr, aw, ar, mx, ec>>
Start(t) == /\ vc' = [vc EXCEPT ![t] = Join(@, sc[t])]
            /\ UNCHANGED <<acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec>>
Exit(t) == /\ ec' = [ec EXCEPT ![t] = vc[t]]
           /\ UNCHANGED <<vc, acqp, relf, rel, own, pw, pr, aw, ar, mx, sc>>
JoinT(t, c) == /\ vc' = [vc EXCEPT ![t] = Join(@, ec[c])]
               /\ UNCHANGED <<acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec>>
=============================================================================
