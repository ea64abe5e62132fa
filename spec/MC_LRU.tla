------------------------------- MODULE MC_LRU -------------------------------
(* The algorithm: a list of entries with strong references and one of entries *)
(* with weak references, a map from keys to both; dead entries are removed    *)
(* from the list when found, or with the next insertion.  And a record of all *)
(* uses, to say what "least recently used" means.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KEYS, OBJS, SLOTS, LIMIT
VARIABLES limit, cache, weak, held, slist, wlist, uses
C == INSTANCE LRU
cv == <<limit, cache, weak, held>>
vars == <<cv, slist, wlist, uses>>
Init == C!Init /\ slist = << >> /\ wlist = << >> /\ uses = << >>
InList(s, k) == \E i \in 1 .. Len(s) : s[i][1] = k
Del(s, k) == SelectSeq(s, LAMBDA x : x[1] # k)
Live(o, sl, h) == o \in C!Objs(sl) \cup C!Range(h)
\* push out what is over the limit, then collect the dead
Grow(sl, wl, h) ==
  LET s == IF Len(sl) > LIMIT THEN SubSeq(sl, 1, LIMIT) ELSE sl
      w == IF Len(sl) > LIMIT THEN <<sl[Len(sl)]>> \o wl ELSE wl IN
  <<s, SelectSeq(w, LAMBDA x : Live(x[2], s, h))>>
Use(k, o) == uses' = <<<<k, o>>>> \o Del(uses, k)
AInsert(k, o, h) == LET g == Grow(<<<<k, o>>>> \o Del(slist, k), Del(wlist, k), h) IN slist' = g[1] /\ wlist' = g[2]
\* (objects in use, or dead but still known)
Known == C!Alive \cup C!Range(weak) \cup C!Objs(wlist)
Insert == \E k \in KEYS, o \in OBJS :
  /\ o \in C!Range(held) \/ o \notin Known
  /\ C!Insert(k, o) /\ UNCHANGED held /\ AInsert(k, o, held) /\ Use(k, o)
InsertHeld == \E k \in KEYS, o \in OBJS, s \in SLOTS :
  /\ o \notin Known /\ C!Hold(s, o) /\ C!Insert(k, o) /\ AInsert(k, o, held') /\ Use(k, o)
AFound(k) == IF InList(slist, k) THEN (CHOOSE i \in 1 .. Len(slist) : slist[i][1] = k)
             ELSE IF InList(wlist, k) THEN -(CHOOSE i \in 1 .. Len(wlist) : wlist[i][1] = k) ELSE 0
AObj(k) == LET i == AFound(k) IN IF i > 0 THEN slist[i][2] ELSE IF i < 0 /\ Live(wlist[-i][2], slist, held) THEN wlist[-i][2] ELSE 0
Get == \E k \in KEYS, s \in SLOTS :
  /\ C!Get(k) /\ (IF C!Found(k) = 0 THEN UNCHANGED held ELSE C!Hold(s, C!Found(k)))
  /\ LET o == AObj(k) IN
     IF o = 0 THEN slist' = slist /\ wlist' = Del(wlist, k) /\ UNCHANGED uses
     ELSE /\ Use(k, o)
          /\ IF AFound(k) > 0 THEN slist' = <<<<k, o>>>> \o Del(slist, k) /\ wlist' = wlist
             ELSE LET g == Grow(<<<<k, o>>>> \o slist, Del(wlist, k), (s :> o) @@ held) IN slist' = g[1] /\ wlist' = g[2]
Drop == \E s \in DOMAIN held : C!Drop(s) /\ UNCHANGED <<limit, cache, weak, slist, wlist, uses>>
Clear == C!Clear /\ UNCHANGED held /\ slist' = << >> /\ wlist' = << >> /\ uses' = << >>
Forget == C!Forget /\ UNCHANGED <<slist, wlist, uses>>
Set == limit = 1 /\ LIMIT > 1 /\ cache = << >> /\ limit' = LIMIT /\ UNCHANGED <<cache, weak, held, slist, wlist, uses>>
Next == IF limit # LIMIT THEN Set ELSE Insert \/ InsertHeld \/ Forget \/ Get \/ Drop \/ Clear
Spec == Init /\ [][Next]_vars
\* --- what is promised
\* Cached are the last used, up to the limit.
Lru == limit = LIMIT => cache = SubSeq(uses, 1, IF Len(uses) < limit THEN Len(uses) ELSE limit)
SameList == slist = cache
\* No lookup finds anything else, or anything dead.
SameAnswers == limit = LIMIT => \A k \in KEYS : AObj(k) = C!Found(k) /\ (C!Found(k) # 0 => C!Found(k) \in C!Alive)
\* One place per key.
OnePlace == \A k \in KEYS : Cardinality({i \in 1 .. Len(slist) : slist[i][1] = k}) + Cardinality({i \in 1 .. Len(wlist) : wlist[i][1] = k}) <= 1
=============================================================================
