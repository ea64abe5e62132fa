--------------------------- MODULE Trace_Messages ---------------------------
EXTENDS TraceBase
VARIABLES o, in, pos
C == INSTANCE Messages WITH Base <- 256
vars == <<tid, l, o, in, pos>>
TInit == tid \in 1 .. NT /\ l = 1 /\ o = [i \in {0, 1} |-> << >>] /\ in = << >> /\ pos = 0
Bit(b) == IF b THEN 1 ELSE 0
P(x) == IF x < 0 THEN C!Huge ELSE x
\* 0 object, 1 truth value, 2 string, 3 size, 4 array, 5 sized array, 6 bytes, 7 message
Appended(kind, width, n, data) ==
  CASE kind \in {2, 5} -> C!Sized(width, n, data)
    [] kind = 7 -> o[1]
    [] OTHER -> data
Writing ==
  /\ Is("w")
  /\ LET i == Ev[2]  fail == Ev[7] # 0 IN
     /\ (IF fail \/ (Ev[5] < 0) THEN C!Same ELSE C!Write(i, Appended(Ev[3], Ev[4], Ev[5], Ev[6])))
     /\ (Ev[5] < 0 => fail)
     /\ Ev[8] = o'[i] /\ Ev[9] = Len(o'[i]) /\ Ev[10] = 1
ReadOf(e) ==
  LET kind == e[2]  w == e[3]  n == e[4] IN
  CASE kind = 0 -> C!Take(w)
    [] kind = 1 -> C!TakeBool
    [] kind = 2 -> C!TakeString(w)
    [] kind = 3 -> C!TakeSize(w, e[5])
    [] kind = 4 -> C!Take(IF n < 0 THEN C!Huge ELSE w * n)
    [] kind = 6 -> C!Take(n)
Reading ==
  /\ Is("r")
  /\ LET r == ReadOf(Ev)  res == Ev[6] IN
     \/ /\ res \in {0, 1, 2} /\ (res = 1) = r.ok /\ C!Read(r)
        /\ Ev[8] = (IF r.ok THEN r.value ELSE Ev[7])
        \* A size that is there but does not fit is reported otherwise.
        /\ (res = 2) = (Ev[2] = 3 /\ ~ r.ok /\ Ev[3] <= C!Left)
     \/ /\ res = 3 /\ Ev[2] = 2 /\ r.ok /\ C!Same /\ Ev[8] = Ev[7]
  /\ Ev[9] = pos' /\ Ev[10] = 1
Op ==
  \/ Writing
  \/ Reading
  \/ Is("in") /\ C!Open(Ev[2]) /\ Ev[3] = Len(Ev[2])
  \/ Is("kept") /\ C!Same /\ Ev[2] = in
  \/ Is("seek") /\ C!Seek(P(Ev[2])) /\ Ev[3] = Bit(P(Ev[2]) < Len(in)) /\ Ev[4] = pos'
  \* To the beginning of what was written, or elsewhere.
  \/ /\ Is("back") /\ C!Same
     /\ LET ok == Ev[3] = 1 \/ Ev[2] < Len(o[0])  p == IF ok THEN Ev[2] ELSE Len(o[0]) IN
        Ev[4] = Bit(ok) /\ Ev[5] = p /\ Ev[6] = Len(o[0]) - p
  \/ Is("order") /\ C!Same /\ Ev[3] = C!Rev(Ev[2]) /\ Ev[4] = Ev[2] /\ Ev[5] = Ev[2] /\ Ev[6] = 1
  \/ /\ Is("stream") /\ C!Same
     /\ LET d == Ev[2]  k == C!Min(Ev[3], Len(d)) IN
        /\ Ev[4] = (IF d = << >> THEN -1 ELSE d[1])
        /\ Ev[5] = SubSeq(d, 1, Len(Ev[5])) /\ Len(Ev[5]) \in {k, k - 1} /\ Ev[6] = Bit(Ev[3] <= Len(d))
        /\ Ev[7] = SubSeq(d, Len(Ev[5]) + 1, Len(d)) /\ Ev[8] = 1
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ C!Same
TNext == Adv /\ Op
TSpec == TInit /\ [][TNext]_vars
=============================================================================
