-------------------------------- MODULE LRU --------------------------------
(* A cache of objects by key.  The most recently used ones, up to the limit,  *)
(* are kept alive by it; others only as long as a user holds them, and until  *)
(* then they can still be found.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES limit,
          cache, \* <<key, object>>, the most recent first
          weak,  \* key -> object, those pushed out
          held   \* slot of a user -> object
lv == <<limit, cache, weak, held>>
Init == limit = 1 /\ cache = << >> /\ weak = << >> /\ held = << >>
Objs(c) == {c[i][2] : i \in 1 .. Len(c)}
Range(f) == {f[x] : x \in DOMAIN f}
AliveIn(c, h) == Objs(c) \cup Range(h)
Alive == AliveIn(cache, held)
Gone == Alive \ AliveIn(cache', held')
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Without(c, k) == SelectSeq(c, LAMBDA x : x[1] # k)
Keys(c) == {c[i][1] : i \in 1 .. Len(c)}
Cached(k) == CHOOSE i \in 1 .. Len(cache) : cache[i][1] = k
\* what is behind the limit is pushed out
Top(c) == SubSeq(c, 1, IF Len(c) < limit THEN Len(c) ELSE limit)
Push(k, o) ==
  LET c == <<<<k, o>>>> \o Without(cache, k)
      w == Restrict(weak, DOMAIN weak \ {k}) IN
  /\ cache' = Top(c)
  /\ weak' = (IF Len(c) > limit THEN (c[Len(c)][1] :> c[Len(c)][2]) @@ w ELSE w)
Insert(k, o) == Push(k, o) /\ UNCHANGED limit
\* The answer: the object, or 0.
Found(k) == IF k \in Keys(cache) THEN cache[Cached(k)][2]
            ELSE IF k \in DOMAIN weak /\ weak[k] \in Alive THEN weak[k] ELSE 0
Get(k) == IF Found(k) = 0 THEN UNCHANGED <<limit, cache, weak>> ELSE Push(k, Found(k)) /\ UNCHANGED limit
Clear == cache' = << >> /\ weak' = << >> /\ UNCHANGED limit
\* A dead one will not be found again, so that it may be forgotten.
Forget == weak' = Restrict(weak, {k \in DOMAIN weak : weak[k] \in Alive}) /\ UNCHANGED <<limit, cache, held>>
\* users
Hold(s, o) == held' = (s :> o) @@ held
Drop(s) == held' = Restrict(held, DOMAIN held \ {s})
=============================================================================
