------------------------------ MODULE Trace_Map ------------------------------
(* Every event ends with what iterating over each of the three maps showed:   *)
(* <<size, key, value, identity, key, ...>>, keys in order, and the number of *)
(* values alive, and misuses of values seen.                                  *)
EXTENDS TraceBase
VARIABLES m
C == INSTANCE Map
vars == <<tid, l, m>>
TInit == tid \in 1 .. NT /\ l = 1 /\ m = [i \in 1 .. 3 |-> << >>]
B(n) == n = 1
Now == Ev[Len(Ev)]
Entries(i) == (Len(Now[i]) - 1) \div 3
Key(i, n) == Now[i][3 * n - 1]
Id(i) == [k \in {Key(i, n) : n \in 1 .. Entries(i)} |-> Now[i][3 * (CHOOSE n \in 1 .. Entries(i) : Key(i, n) = k) + 1]]
IdOf(i, k) == IF k \in DOMAIN Id(i) THEN Id(i)[k] ELSE 0
Ids(i) == [k \in 1 .. 9 |-> IdOf(i, k)]
\* Every entry exactly once.
Seen == /\ \A i \in 1 .. 3 :
             LET f == m'[i]  s == Now[i] IN
             /\ Test(Len(s) = 3 * C!Size(f) + 1) /\ s[1] = C!Size(f)
             /\ \A n \in 1 .. Entries(i) : /\ Key(i, n) \in DOMAIN f /\ f[Key(i, n)] = <<s[3 * n], s[3 * n + 1]>>
                                           /\ (n > 1 => Key(i, n) > Key(i, n - 1))
        /\ Now[4] = <<C!Size(m'[1]) + C!Size(m'[2]) + C!Size(m'[3]), 0>>
Op ==
  \/ Is("new") /\ C!Same
  \/ /\ Is("ins")
     /\ LET i == Ev[2]  k == Ev[3]  v == Ev[4] IN
        IF B(Ev[5]) THEN C!Same
        ELSE /\ Ev[6] \in {2, IF C!Has(i, k) THEN 0 ELSE 1} /\ Ev[7] = (IF C!Has(i, k) THEN C!Val(i, k) ELSE v)
             /\ C!Insert(i, k, v, IdOf(i, k))
  \/ /\ Is("ioa")
     /\ LET i == Ev[2]  k == Ev[3]  v == Ev[4] IN
        IF B(Ev[5]) THEN C!Same
        ELSE /\ Ev[6] \in {2, IF C!Has(i, k) THEN 0 ELSE 1} /\ Ev[7] = v /\ C!InsertOrAssign(i, k, v, IdOf(i, k))
  \/ /\ Is("sub")
     /\ LET i == Ev[2]  k == Ev[3] IN
        IF B(Ev[4]) THEN C!Same
        ELSE Ev[5] = (IF C!Has(i, k) THEN C!Val(i, k) ELSE 9) /\ C!Insert(i, k, 9, IdOf(i, k))
  \/ Is("asg") /\ C!Put(Ev[2], Ev[3], Ev[4])
  \/ Is("del") /\ (Ev[4] = IF C!Has(Ev[2], Ev[3]) THEN 1 ELSE 0) /\ C!Erase(Ev[2], {Ev[3]})
  \/ /\ Is("cut") /\ \A n \in 1 .. Len(Ev[3]) : C!Has(Ev[2], Ev[3][n])
     /\ C!Erase(Ev[2], {Ev[3][n] : n \in 1 .. Len(Ev[3])})
  \/ Is("clr") /\ C!Clear(Ev[2])
  \/ Is("cpy") /\ IF B(Ev[4]) \/ B(Ev[5]) THEN C!Same ELSE C!Copy(Ev[2], Ev[3], Ids(Ev[2]))
  \/ Is("mov") /\ C!Move(Ev[2], Ev[3])
  \/ Is("swp") /\ C!Swap(Ev[2], Ev[3])
  \/ Is("many") /\ C!Many(Ev[2], B(Ev[3]), Ev[4], Ids(Ev[2]))
  \/ /\ Is("ask") /\ C!Same
     /\ LET i == Ev[2]  k == Ev[3]  v == C!Val(i, k)  h == IF C!Has(i, k) THEN 1 ELSE 0 IN
        /\ \A n \in 1 .. Len(Ev[4]) : Ev[4][n] = v
        /\ \A n \in 1 .. Len(Ev[5]) : Ev[5][n] = v
        /\ \A n \in 1 .. Len(Ev[6]) : Ev[6][n] = h
        /\ Ev[7] = <<h, h, v, v, v, v>>
  \/ /\ Is("bkt") /\ C!Same /\ B(Ev[3])
     /\ Len(Ev[4]) = C!Size(m[Ev[2]]) /\ {Ev[4][n] : n \in 1 .. Len(Ev[4])} = DOMAIN m[Ev[2]]
  \/ Is("eq") /\ C!Same /\ B(Ev[4]) = C!Equal(Ev[2], Ev[3]) /\ B(Ev[5]) = ~ C!Equal(Ev[2], Ev[3])
\* Strings are equal to equal sequences of characters, and hash equally; an
\* array of characters ends before its first null character.
Cut(s) == IF \E n \in 1 .. Len(s) : s[n] = 0
          THEN SubSeq(s, 1, (CHOOSE n \in 1 .. Len(s) : s[n] = 0 /\ \A o \in 1 .. n - 1 : s[o] # 0) - 1) ELSE s
Str == /\ Is("str")
       /\ LET a == Ev[2]  b == Ev[3] IN
          /\ \A n \in 1 .. Len(Ev[4]) : B(Ev[4][n]) = (a = b)
          /\ \A n \in 1 .. Len(Ev[5]) : B(Ev[5][n]) = (a = Cut(b))
          /\ \A n \in 1 .. Len(Ev[6]) : Ev[6][n] = 1
       /\ UNCHANGED m
Gone == Is("gone") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ m' = [i \in 1 .. 3 |-> << >>]
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED m
TNext == Adv /\ ((Op /\ Seen) \/ Str \/ Gone \/ TEnd)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
