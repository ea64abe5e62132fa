--------------------------- MODULE Trace_MathInts ---------------------------
(* Results of comparing and converting integers of all types: eight bytes of  *)
(* magnitude and a sign.                                                      *)
EXTENDS TraceBase
M == INSTANCE MathInts WITH Base <- 256, D <- 8
vars == <<tid, l>>
TInit == tid \in 1 .. NT /\ l = 1
B(x) == IF x THEN 1 ELSE 0
Cmp(x, y) == LET lt == M!Less(x, y)   eq == x = y IN
  SubSeq(Ev, 4, 11) = <<B(lt), B(lt), B(lt \/ eq), B(eq), B(~eq), B(~lt), B(~lt /\ ~eq), B(~lt /\ ~eq)>>
Sign(x) == LET neg == M!Neg(x)   zero == M!Zero(x) IN
  SubSeq(Ev, 3, 9) = <<B(~neg /\ ~zero), B(neg), B(~neg), B(neg \/ zero), B(zero), B(~zero), B(M!PowerOfTwo(x))>>
Ran(s) == {s[k] : k \in 1 .. Len(s)}
Op ==
  \/ Is("cmp") /\ Test(M!Number(Ev[2]) /\ M!Number(Ev[3]) /\ Cmp(Ev[2], Ev[3]))
  \/ Is("sign") /\ Test(M!Number(Ev[2]) /\ Sign(Ev[2]))
  \/ Is("conv") /\ Ev[5] = Ev[3] /\ (Ev[2] = "u" => Ev[6] = 0) /\ (Ev[2] = "s" => Ev[6] = 1)
     /\ Test(M!Number(Ev[7]))
     /\ Ev[7] = (IF Ev[2] = "u" THEN M!ToUnsigned(Ev[4], Ev[3]) ELSE IF Ev[2] = "s" THEN M!ToSigned(Ev[4], Ev[3]) ELSE Ev[4])
  \/ Is("ext") /\ Test(M!Greatest(Ran(Ev[2]), Ev[3]) /\ M!Least(Ran(Ev[2]), Ev[4]))
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0
TNext == Op /\ Adv
TSpec == TInit /\ [][TNext]_vars
=============================================================================
