--------------------------- MODULE Trace_Optional ---------------------------
(* Every event ends with the state seen: contents of the three optionals,     *)
(* elements alive, and uses of dead elements or memory.                       *)
EXTENDS TraceBase
VARIABLES o, moves, copyable, counted, acc
C == INSTANCE Optional
ov == <<o, moves>>
vars == <<tid, l, ov, copyable, counted, acc>>
TInit == tid \in 1 .. NT /\ l = 1 /\ o = [i \in 1 .. 3 |-> 0] /\ moves = FALSE
         /\ copyable = FALSE /\ counted = FALSE /\ acc = 0
Last == Ev[Len(Ev)]
B(n) == n = 1
Seen == /\ Test(\A i \in 1 .. 3 : Last[i] = o'[i])
        /\ (counted' => Last[4] = Cardinality({i \in 1 .. 3 : o'[i] # 0})) /\ Last[5] = 0
Keep == UNCHANGED <<copyable, counted, acc>>
TNew == /\ Is("new") /\ copyable' = B(Ev[2]) /\ moves' = B(Ev[3]) /\ counted' = B(Ev[4])
        /\ UNCHANGED <<o, acc>> /\ Seen
Op ==
  \/ Is("emp") /\ C!Emplace(Ev[2], Ev[3], B(Ev[4])) /\ (B(Ev[4]) \/ Ev[5] = Ev[3])
  \/ Is("set") /\ C!Assign(Ev[2], Ev[3], B(Ev[4]))
  \/ Is("null") /\ C!Put(Ev[2], 0)
  \/ Is("cpy") /\ C!Copy(Ev[2], Ev[3], B(Ev[4]))
  \/ Is("cctor") /\ C!Copy(Ev[2], Ev[3], B(Ev[4]))
  \/ Is("mov") /\ C!Move(Ev[2], Ev[3], B(Ev[4]))
  \/ Is("mctor") /\ C!Move(Ev[2], Ev[3], B(Ev[4]))
  \/ Is("swap") /\ C!Swap(Ev[2], Ev[3], B(Ev[4]))
  \/ Is("conv") /\ C!Assign(Ev[2], Ev[3], B(Ev[4]))
  \/ Is("cass") /\ C!Assign(Ev[2], Ev[3], B(Ev[4]))
  \/ /\ Is("take") /\ C!Take(Ev[2], B(Ev[3]))
     /\ (B(Ev[3]) \/ Ev[4] = IF o[Ev[2]] = 0 THEN 7 ELSE o[Ev[2]])
  \/ /\ Is("ask") /\ C!Same
     /\ LET v == o[Ev[2]] IN
        /\ Ev[3] = (IF v = 0 THEN 0 ELSE 3)
        /\ Ev[4] = (IF v = 0 THEN << >> ELSE <<v, v, v, v>>)
        /\ Ev[5] = (IF ~ copyable THEN -1 ELSE IF v = 0 THEN 7 ELSE v)
        /\ Ev[6] = (IF ~ copyable THEN -1 ELSE IF v = 0 THEN 8 ELSE v)
  \/ /\ Is("cmp") /\ C!Same
     /\ LET a == o[Ev[2]]  b == o[Ev[3]]  v == Ev[4] IN
        Ev[5] = <<C!Compare(a, b), C!Compare(a, 0), C!Compare(0, a), C!Compare(a, v), C!Compare(v, a)>>
TAccess == Is("access") /\ acc = 0 /\ acc' = Ev[2] /\ UNCHANGED <<ov, copyable, counted>>
TAccessed == /\ Is("accessed") /\ acc # 0 /\ o[acc] # 0 /\ Ev[2] = o[acc]
             /\ acc' = 0 /\ UNCHANGED <<ov, copyable, counted>>
\* Access to an empty one is reported.
TReported == /\ Is("crash") /\ Ev[2] = "assert" /\ acc # 0 /\ o[acc] = 0
             /\ UNCHANGED <<ov, copyable, counted, acc>>
TDel == Is("del") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ o' = [i \in 1 .. 3 |-> 0] /\ UNCHANGED moves /\ Keep
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED ov /\ Keep
TNext == Adv /\ (TNew \/ (Op /\ Keep /\ Seen) \/ TAccess \/ TAccessed \/ TReported \/ TDel \/ TEnd)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
