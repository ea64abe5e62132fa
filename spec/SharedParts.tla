----------------------------- MODULE SharedParts -----------------------------
(* Holders of objects and of parts of objects: whoever holds a part holds the *)
(* whole.  An object, with all its parts, is destroyed when the last holder   *)
(* of any of it lets go, and not before; weak references to it, or to parts,  *)
(* can be turned into holders until then.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Slot
VARIABLES holds,     \* slot -> <<object, part>>, part 0: the whole; <<0, 0>>: nothing
          shape,     \* object -> number of its parts
          gone,      \* objects destroyed
          weak       \* weak slot -> <<object, part>>
None == <<0, 0>>
Objects == DOMAIN shape
Held(h) == {h[s][1] : s \in Slot} \ {0}
Holders(o) == Cardinality({s \in Slot : holds[s][1] = o})
SetTo(h) == holds' = h /\ gone' = gone \cup (Held(holds) \ Held(h))
New(s, o, n) == o \notin Objects /\ shape' = (o :> n) @@ shape /\ SetTo([holds EXCEPT ![s] = <<o, 0>>]) /\ UNCHANGED weak
Put(s, x) == SetTo([holds EXCEPT ![s] = x]) /\ UNCHANGED <<shape, weak>>
Drop(s) == Put(s, None)
Copy(s, t) == Put(s, holds[t])
Move(s, t) == SetTo([holds EXCEPT ![t] = None, ![s] = holds[t]]) /\ UNCHANGED <<shape, weak>>
Part(s, t, n) == holds[t][1] # 0 /\ holds[t][2] = 0 /\ n \in 1 .. shape[holds[t][1]] /\ Put(s, <<holds[t][1], n>>)
Weak(w, t, n) == holds[t][1] # 0 /\ holds[t][2] = 0 /\ weak' = [weak EXCEPT ![w] = <<holds[t][1], n>>] /\ UNCHANGED <<holds, shape, gone>>
Lock(w, s) == Put(s, IF weak[w][1] \in Held(holds) THEN weak[w] ELSE None)
=============================================================================
