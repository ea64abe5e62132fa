---------------------------- MODULE MC_Messages ----------------------------
(* Whatever is written comes back when read in the same way, and the reading *)
(* ends at the end; from a message cut short everything up to the cut comes  *)
(* back and the next read fails in its place; of a damaged one, no read goes *)
(* beyond the end.                                                           *)
EXTENDS Messages
CONSTANTS OPS, W       \* how many writes; digits of a size
VARIABLES log, cut, damaged, k, failed, right
vars == <<o, in, pos, log, cut, damaged, k, failed, right>>
Byte == 0 .. Base - 1
Bytes(n) == UNION {[1 .. i -> Byte] : i \in 0 .. n}
Val == {[kind |-> "object", v |-> x, w |-> 0] : x \in [1 .. 2 -> Byte]}
       \cup {[kind |-> "bool", v |-> <<b>>, w |-> 0] : b \in {0, 1}}
       \cup {[kind |-> "string", v |-> x, w |-> W] : x \in Bytes(2)}
       \cup {[kind |-> "size", v |-> x, w |-> W] : x \in [1 .. W -> Byte]}
       \cup {[kind |-> "bytes", v |-> x, w |-> 0] : x \in Bytes(2)}
Init == /\ o = [i \in {0} |-> << >>] /\ in = << >> /\ pos = 0 /\ log = << >>
        /\ cut = -1 /\ damaged = FALSE /\ k = 0 /\ failed = FALSE /\ right = TRUE
Idle == UNCHANGED <<cut, damaged, k, failed, right>>
Put == /\ cut < 0 /\ Len(log) < OPS
       /\ \E x \in Val : /\ Write(0, IF x.kind = "string" THEN Sized(x.w, Len(x.v), x.v) ELSE x.v)
                         /\ log' = Append(log, x)
       /\ Idle
Arrive == /\ cut < 0 /\ \E n \in 0 .. Len(o[0]) : cut' = n /\ Open(SubSeq(o[0], 1, n))
          /\ damaged' = FALSE /\ UNCHANGED <<log, k, failed, right>>
Spoil == /\ cut < 0 /\ cut' = Len(o[0]) /\ damaged' = TRUE
         /\ \E p \in 1 .. Len(o[0]), b \in Byte : Open([o[0] EXCEPT ![p] = b])
         /\ UNCHANGED <<log, k, failed, right>>
Get == /\ cut >= 0 /\ k < Len(log) /\ ~ failed
       /\ LET x == log[k + 1]
              r == CASE x.kind = "string" -> TakeString(x.w)
                     [] x.kind = "size" -> TakeSize(x.w, x.w)
                     [] x.kind = "bool" -> TakeBool
                     [] OTHER -> Take(Len(x.v)) IN
          /\ Read(r) /\ k' = (IF r.ok THEN k + 1 ELSE k) /\ failed' = ~ r.ok
          /\ right' = (right /\ (r.ok => r.value = x.v))
       /\ UNCHANGED <<log, cut, damaged>>
Next == Put \/ Arrive \/ Spoil \/ Get
Spec == Init /\ [][Next]_vars /\ WF_vars(Get)
\* How much the first n writes wrote.
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN 0 ELSE Upto(n - 1) + log[n].w * (IF log[n].kind = "string" THEN 1 ELSE 0) + Len(log[n].v)
Inside == pos <= Len(in)
Back == ~ damaged => right /\ (cut >= 0 => pos = Upto(k))
Whole == ~ damaged /\ cut = Len(o[0]) => ~ failed /\ (k = Len(log) => pos = Len(in))
Short == ~ damaged /\ cut >= 0 => (failed => Upto(k + 1) > cut) /\ Upto(k) <= cut
=============================================================================
