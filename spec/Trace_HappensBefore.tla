------------------------- MODULE Trace_HappensBefore -------------------------
EXTENDS TraceBase
Th == 0 .. 9
VARIABLES vc, acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec
H == INSTANCE HappensBefore
hb == <<vc, acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec>>
vars == <<tid, l, vc, acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec>>
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
LocsOf(i) == 0 .. MaxS({0} \cup {Traces[i][k][3] : k \in {k \in 1 .. Len(Traces[i]) :
               Traces[i][k][1] \in {"r", "w", "al", "as", "am", "acq", "rel"}}})
TInit == tid \in 1 .. NT /\ l = 1 /\ H!InitHB(LocsOf(tid))
TNext ==
  /\ More /\ Adv
  /\ \/ Is("r") /\ H!Read(Ev[2], Ev[3])
     \/ Is("w") /\ H!Write(Ev[2], Ev[3])
     \/ Is("al") /\ H!ALoad(Ev[2], Ev[3], Ev[4])
     \/ Is("as") /\ H!AStore(Ev[2], Ev[3], Ev[4])
     \/ Is("am") /\ H!ARmw(Ev[2], Ev[3], Ev[4])
     \/ Is("fence") /\ H!Fence(Ev[2], Ev[4])
     \/ Is("acq") /\ H!Lock(Ev[2], Ev[3])
     \/ Is("rel") /\ H!Unlock(Ev[2], Ev[3])
     \/ Is("create") /\ H!Create(Ev[2], Ev[3])
     \/ Is("join") /\ H!JoinT(Ev[2], Ev[3])
     \/ Is("start") /\ H!Start(Ev[2])
     \/ Is("exit") /\ H!Exit(Ev[2])
     \* how the execution ended is judged elsewhere
     \/ Is("end") /\ UNCHANGED hb
     \/ Is("hang") /\ UNCHANGED hb
     \/ Is("crash") /\ UNCHANGED hb
TSpec == TInit /\ [][TNext]_vars
=============================================================================
