--------------------------- MODULE Trace_Strings ---------------------------
EXTENDS TraceBase
VARIABLES v
C == INSTANCE Strings
vars == <<tid, l, v>>
TInit == tid \in 1 .. NT /\ l = 1 /\ v = [i \in {1, 2} |-> << >>]
Huge == 1000000
P(r) == IF r < 0 THEN Huge ELSE r
All(r, x) == \A k \in 1 .. Len(r) : r[k] = x
Bit(b) == IF b THEN 1 ELSE 0
Now(i) == v[i]
Ops(s) == <<Bit(s = 0), Bit(s # 0), Bit(s < 0), Bit(s <= 0), Bit(s > 0), Bit(s >= 0)>>
Lkn(r, s, set, p, fp, lp) ==
  /\ All(r[1], C!First(s, set, TRUE, fp)) /\ All(r[2], C!First(s, set, FALSE, fp))
  /\ All(r[3], C!Last(s, set, TRUE, lp)) /\ All(r[4], C!Last(s, set, FALSE, lp))
Look(e) == LET s == Now(e[2]) IN
  /\ Lkn(e[5], s, e[3], 0, P(e[4]), P(e[4]))
  /\ Lkn(SubSeq(e[5], 5, 8), s, e[3], 0, 0, Huge)
Found(e) == LET s == Now(e[2])  t == e[3]  p == P(e[4]) IN
  /\ All(e[5], C!Find(s, t, p)) /\ All(e[6], C!RFind(s, t, p))
  /\ All(e[7], C!Find(s, t, 0)) /\ All(e[8], C!RFind(s, t, Huge))
  /\ All(e[9], Bit(C!Starts(s, t))) /\ All(e[10], Bit(C!Ends(s, t)))
Cut(e) == LET s == Now(e[2])  p == P(e[3])  q == P(e[4])  d == C!Sub(s, p, q) IN
  /\ e[5] = C!Sub(s, p, Huge) /\ e[6] = d
  /\ e[7] = C!Left(s, p) /\ e[8] = C!Right(s, p)
  /\ e[9] = C!LeftClipped(s, p) /\ e[10] = C!RightClipped(s, p) /\ e[11] = C!Clipped(s, p, q)
  /\ e[12] = IF d = C!Error THEN d ELSE Append(d, Len(d))
Cmp(e) == LET s == Now(e[2])  t == Now(3 - e[2])  c == C!Compare(s, t)
              p == P(e[8])  q == P(e[9])  p2 == P(e[10])  q2 == P(e[11])
              whole == C!CompareParts(s, p, q, t, 0, Huge) IN
  /\ All(e[3], c) /\ e[4] = Ops(c) /\ e[5] = Ops(c) /\ e[6] = Ops(c) /\ e[7] = 1
  /\ e[12] = whole /\ e[13] = C!CompareParts(s, p, q, t, p2, q2)
  /\ e[14] = whole /\ e[15] \in {whole, <<-2>>}
Trimmed(e) == LET s == Now(e[2]) IN
  All(e[4], C!LTrim(s, e[3])) /\ All(e[5], C!RTrim(s, e[3])) /\ All(e[6], C!Trim(s, e[3]))
Pieces(e) == LET s == Now(e[2])  a == C!Split(s, e[3])  b == C!SplitSome(s, e[3]) IN
  e[4] = a /\ e[5] = b /\ e[6] = a /\ e[7] = b
Out(e) == LET x == C!Padded(Now(e[2]), e[3], e[4] = 1) IN
  e[6] = SubSeq(x, 1, C!Min(Len(x), e[5])) /\ e[7] = Bit(Len(x) <= e[5]) /\ e[8] = 0
See(e) == LET s == Now(e[2]) IN
  /\ e[3] = s /\ e[4] = C!Rev(s) /\ e[5] = s
  /\ e[6] = (IF s = << >> THEN << >> ELSE <<s[1], s[Len(s)]>>)
  /\ e[7] = Len(s) /\ e[8] = Bit(s = << >>) /\ e[9] = 1 /\ e[10] = s /\ e[11] = s
Ask ==
  \/ Is("see") /\ Test(See(Ev))
  \/ Is("at") /\ Ev[4] = C!At(Now(Ev[2]), P(Ev[3]))
  \/ Is("cut") /\ Test(Cut(Ev))
  \/ Is("find") /\ Test(Found(Ev))
  \/ Is("look") /\ Test(Look(Ev))
  \/ Is("trim") /\ Test(Trimmed(Ev))
  \/ Is("cmp") /\ Test(Cmp(Ev))
  \/ Is("split") /\ Test(Pieces(Ev))
  \/ Is("out") /\ Test(Out(Ev))
  \/ Is("cat") /\ Ev[3] = C!Concat(Ev[2]) /\ Ev[4] = 1
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0
Change ==
  \/ Is("set") /\ Ev[4] = Ev[3] /\ v' = [v EXCEPT ![Ev[2]] = Ev[3]]
  \/ Is("swap") /\ v' = [i \in {1, 2} |-> v[3 - i]] /\ Ev[2] = v'[1] /\ Ev[3] = v'[2]
  \/ /\ Is("rem") /\ v' = [v EXCEPT ![Ev[2]] = IF Ev[3] = 1 THEN C!From(@, Ev[4]) ELSE SubSeq(@, 1, Len(@) - Ev[4])]
     /\ Ev[5] = v'[Ev[2]]
TNext == Adv /\ ((Ask /\ UNCHANGED v) \/ Change)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
