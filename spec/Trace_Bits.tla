----------------------------- MODULE Trace_Bits -----------------------------
(* Bits are recorded as <<length, 8 bits, 8 bits, ...>>.                      *)
EXTENDS TraceBase
VARIABLES o, acc
C == INSTANCE Bits
vars == <<tid, l, o, acc>>
TInit == tid \in 1 .. NT /\ l = 1 /\ o = [i \in 0 .. 3 |-> << >>] /\ acc = << >>
B(n) == n = 1
Two == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitAt(r, k) == (r[(k - 1) \div 8 + 2] \div Two[((k - 1) % 8) + 1]) % 2
Dec(r) == [k \in 1 .. r[1] |-> BitAt(r, k)]
Is_(i, r) == Test(r[1] = Len(o'[i])) /\ Dec(r) = o'[i]
Op ==
  \/ Is("make") /\ C!Set(Ev[2], Dec(Ev[3])) /\ Is_(Ev[2], Ev[4])
  \/ /\ Is("bit") /\ C!Change(Ev[2], Ev[3], Ev[4], Ev[5]) /\ Is_(Ev[2], Ev[8])
     /\ Ev[6] = o'[Ev[2]][Ev[3]] /\ Ev[7] = 1 - Ev[6]
  \/ /\ Is("at") /\ C!Same
     /\ LET r == IF Ev[3] <= Len(o[Ev[2]]) THEN o[Ev[2]][Ev[3]] ELSE -1 IN Ev[4] = r /\ Ev[5] = r
  \/ /\ Is("resize") /\ Ev[4][1] = Ev[3] /\ C!Resize(Ev[2], Ev[3], Dec(Ev[4])) /\ Is_(Ev[2], Ev[4])
  \/ Is("swap") /\ C!Swap(Ev[2], Ev[3]) /\ Is_(Ev[2], Ev[4]) /\ Is_(Ev[3], Ev[5])
  \/ Is("push") /\ C!Push(Ev[2], Ev[3]) /\ Is_(Ev[2], Ev[4])
  \/ Is("pop") /\ C!Pop(Ev[2]) /\ Is_(Ev[2], Ev[3])
  \/ Is("copy") /\ C!Copy(Ev[2], Ev[3]) /\ Is_(Ev[2], Ev[4])
  \/ Is("append") /\ C!Cat(Ev[2], Ev[3]) /\ Is_(Ev[2], Ev[4])
  \/ Is("random") /\ Ev[3][1] = Len(o[Ev[2]]) /\ C!Set(Ev[2], Dec(Ev[3]))
  \/ Is("all") /\ C!Set(Ev[2], C!All(Len(o[Ev[2]]), Ev[3])) /\ Is_(Ev[2], Ev[4])
  \/ Is("flip") /\ C!Flip(Ev[2]) /\ Is_(Ev[2], Ev[3])
  \/ Is("op") /\ C!Op(Ev[2], Ev[3], Ev[4]) /\ Is_(Ev[3], Ev[5]) /\ Is_(Ev[4], Ev[6])
  \/ Is("eq") /\ C!Same /\ (o[Ev[2]] = o[Ev[3]]) = B(Ev[4]) /\ Ev[5] = 1 - Ev[4] /\ Ev[6] = 1 /\ Ev[7] = 0
  \/ Is("near") /\ C!Same /\ Ev[2] = 0 /\ Ev[3] = 1
  \/ Is("move") /\ C!Move(Ev[2], Ev[3]) /\ Is_(Ev[2], Ev[4]) /\ Is_(Ev[3], Ev[5])
  \* A message: the length, the bits in words; too short a message or another
  \* length fails.
  \/ /\ Is("msg") /\ C!Same
     /\ LET s == o[Ev[2]]  m == Ev[3]  cut == Ev[4]  other == IF Ev[5] = 0 THEN 0 ELSE 1  ok == Ev[6]  words == 1 + (Len(s) + 63) \div 64 IN
        /\ m[1] = words /\ m[2] = Len(s)
        /\ \A k \in 1 .. Len(s) : (m[(k - 1) \div 8 + 3] \div Two[((k - 1) % 8) + 1]) % 2 = s[k]
        /\ ok = (IF cut = 0 /\ other = 0 THEN 1 ELSE 0)
        /\ (ok = 1 => Dec(Ev[8]) = s /\ Ev[9] = words)
        /\ (other = 1 \/ cut = words => Ev[8] = Ev[7])
        /\ Ev[8][1] = Ev[7][1]
Access == Is("access") /\ acc = << >> /\ acc' = <<Ev[2], Ev[3]>> /\ UNCHANGED o
In == acc # << >> /\ acc[2] >= 1 /\ acc[2] <= Len(o[acc[1]])
Accessed == Is("accessed") /\ In /\ Ev[2] = o[acc[1]][acc[2]] /\ acc' = << >> /\ UNCHANGED o
Reported == Is("crash") /\ Ev[2] = "assert" /\ acc # << >> /\ ~ In /\ UNCHANGED <<o, acc>>
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED <<o, acc>>
TNext == Adv /\ ((Op /\ UNCHANGED acc) \/ Access \/ Accessed \/ Reported \/ TEnd)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
