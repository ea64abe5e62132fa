-------------------------------- MODULE Sync --------------------------------
(* Latches, wait flags, stop flags and delayed-start threads, as seen from    *)
(* their API.                                                                 *)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES lat,   \* latch -> count left
          rdy,   \* wait flag -> TRUE once notified
          stp,   \* stop flag
          th     \* delayed thread -> [st, fn]
sync == <<lat, rdy, stp, th>>
Init == lat = << >> /\ rdy = << >> /\ stp = << >> /\ th = << >>

NewLatch(i, n) == n > 0 /\ lat' = lat @@ (i :> n) /\ UNCHANGED <<rdy, stp, th>>
Down(i) == lat[i] > 0 /\ lat' = [lat EXCEPT ![i] = @ - 1] /\ UNCHANGED <<rdy, stp, th>>
Open(i) == lat[i] = 0

NewFlag(i) == rdy' = rdy @@ (i :> FALSE) /\ UNCHANGED <<lat, stp, th>>
Notify(i) == rdy' = [rdy EXCEPT ![i] = TRUE] /\ UNCHANGED <<lat, stp, th>>

NewStop(i) == stp' = stp @@ (i :> FALSE) /\ UNCHANGED <<lat, rdy, th>>
SetStop(i, v) == stp' = [stp EXCEPT ![i] = v] /\ UNCHANGED <<lat, rdy, th>>

\* A delayed thread: idle -> go -> (in -> ended) or idle -> off.
NewThread(i, fn) == th' = (i :> [st |-> "idle", fn |-> fn]) @@ th /\ UNCHANGED <<lat, rdy, stp>>
To(i, s) == th' = [th EXCEPT ![i].st = s] /\ UNCHANGED <<lat, rdy, stp>>
SetFunction(i) == th[i].st = "idle" /\ th' = [th EXCEPT ![i].fn = 1] /\ UNCHANGED <<lat, rdy, stp>>
Start(i) == th[i].st = "idle" /\ To(i, "go")
Cancel(i) == IF th[i].st = "idle" THEN To(i, "off") ELSE UNCHANGED sync
FnBegin(i) == th[i].st = "go" /\ th[i].fn = 1 /\ To(i, "in")
FnEnd(i) == th[i].st = "in" /\ To(i, "ended")
Over(i) == th[i].st \in {"ended", "off"} \/ (th[i].st = "go" /\ th[i].fn = 0)
=============================================================================
