---------------------------- MODULE Trace_Ranges ----------------------------
(* Histories of comparisons of ranges, walks over them and uses of reference  *)
(* vectors: each event is one use, with what it was given and what it gave.   *)
EXTENDS TraceBase
R == INSTANCE Ranges WITH a <- << >>, b <- << >>, measured <- {}, i <- 0, j <- 0, left <- 0, res <- "unknown"
VARIABLE now      \* the contents of the container last reversed
vars == <<tid, l, now>>
TInit == tid \in 1 .. NT /\ l = 1 /\ now = << >>
Bool(x) == IF x THEN 1 ELSE 0
\* Bits of a byte, and how many of a sequence of bytes are set.
RECURSIVE Ones(_)
Ones(x) == IF x = 0 THEN 0 ELSE (x % 2) + Ones(x \div 2)
RECURSIVE AllOnes(_, _)
AllOnes(s, n) == IF n = 0 THEN 0 ELSE Ones(s[n]) + AllOnes(s, n - 1)
\* Kinds that know their lengths; the others may.
Measured == {1, 2, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16}
SizeOk(k, s, n) == s = n \/ (s = -1 /\ k \notin Measured)
Kept == UNCHANGED now
Op ==
  \/ Is("eq") /\ Ev[6] = Bool(R!Equal(Ev[3], Ev[5])) /\ Kept
  \/ Is("walk") /\ Ev[4] = Ev[3] /\ SizeOk(Ev[2], Ev[5], Len(Ev[3])) /\ (SizeOk(Ev[2], Ev[6], Len(Ev[3]))) /\ Kept
  \/ More /\ Ev[1] \in {"rvec", "rlist", "rdeque", "rarray"}
     /\ \A k \in 3 .. 5 : Ev[k] = R!Rev(Ev[2])
     /\ Ev[6] = Len(Ev[2]) /\ Ev[7] = Len(Ev[2]) /\ now' = Ev[2]
  \/ Is("rwrite") /\ Len(Ev[2]) = Len(now) /\ Ev[3] = R!Written(Ev[2]) /\ now' = Ev[3]
  \/ Is("rwrap") /\ Ev[3] = R!Rev(Ev[2]) /\ Ev[4] = R!Rev(Ev[2]) /\ Kept
  \/ Is("ref") /\ LET n == R!Whole(Len(Ev[3]), Ev[2]) IN
       Ev[4] = n /\ Ev[5] = Bool(n = 0) /\ Ev[6] = R!Elements(Ev[3], Ev[2]) /\ Ev[7] = Ev[6] /\ Kept
  \/ Is("refput") /\ Ev[6] = R!PutElement(Ev[3], Ev[2], Ev[4], Ev[5]) /\ Kept
  \/ Is("refrnd") /\ LET n == R!Whole(Len(Ev[4]), Ev[2]) * Ev[2]   bits == Ev[3] = 1 IN
       /\ SubSeq(Ev[7], n + 1, Len(Ev[7])) = SubSeq(Ev[4], n + 1, Len(Ev[4]))   \* nothing beyond
       /\ IF bits THEN /\ \A k \in 1 .. n : Ev[7][k] \in {0, 1}
                       \* each a random bit of its own
                       /\ LET ones == AllOnes(Ev[7], n)   given == AllOnes(Ev[6], Len(Ev[6])) IN
                            ones <= given /\ n - ones <= 8 * Len(Ev[6]) - given
                  ELSE SubSeq(Ev[7], 1, n) = Ev[6]
       /\ Kept
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ Kept
TNext == Op /\ Adv
TSpec == TInit /\ [][TNext]_vars
=============================================================================
