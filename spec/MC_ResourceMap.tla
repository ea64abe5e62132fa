--------------------------- MODULE MC_ResourceMap ---------------------------
(* The algorithm for one key: an entry owning the resource, a weak reference  *)
(* to the current owner group, renewed ("generation") when the resource is    *)
(* asked for again after its last reference has gone but before the release   *)
(* has got the mutex.  The release that removes the entry destroys the        *)
(* resource there and then; if it only let go of it (Explicit = FALSE), a     *)
(* release still on its way to the mutex would keep it alive beside the next  *)
(* resource of the key.                                                       *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, MaxRes, Explicit
VARIABLES live, hold, mux, pc, entry, gen, refs, mine
M == INSTANCE ResourceMap
vars == <<live, hold, mux, pc, entry, gen, refs, mine>>
(* entry: 0 or resource; gen: its current generation; refs: generation ->     *)
(* references; mine[t]: <<resource, generation>> of thread t's reference      *)
Init == /\ M!Init /\ mux = 0 /\ entry = 0 /\ gen = 0 /\ refs = << >>
        /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> <<0, 0>>]
To(t, s) == pc' = [pc EXCEPT ![t] = s]
Lock(t) == /\ pc[t] = "idle" /\ mux = 0 /\ mux' = t /\ To(t, "get")
           /\ UNCHANGED <<live, hold, entry, gen, refs, mine>>
Next1 == Cardinality(DOMAIN refs) + 1
LastRes == IF refs = << >> THEN 0 ELSE CHOOSE m \in {refs[g].r : g \in DOMAIN refs} :
              \A g \in DOMAIN refs : refs[g].r <= m
\* Under the mutex: join the current generation, or open a new one on the
\* resource of the entry, or create.
Join(t) == /\ pc[t] = "get" /\ entry # 0 /\ refs[gen].n > 0
           /\ refs' = [refs EXCEPT ![gen].n = @ + 1] /\ mine' = [mine EXCEPT ![t] = <<entry, gen>>]
           /\ M!Hold(t, entry) /\ mux' = 0 /\ To(t, "holds") /\ UNCHANGED <<entry, gen>>
Renew(t) == /\ pc[t] = "get" /\ entry # 0 /\ refs[gen].n = 0
            /\ refs' = (Next1 :> [n |-> 1, r |-> entry]) @@ refs /\ gen' = Next1
            /\ mine' = [mine EXCEPT ![t] = <<entry, Next1>>]
            /\ M!Hold(t, entry) /\ mux' = 0 /\ To(t, "holds") /\ UNCHANGED entry
Make(t) == /\ pc[t] = "get" /\ entry = 0 /\ LastRes < MaxRes
           /\ live' = (LastRes + 1 :> 1) @@ live /\ hold' = (t :> LastRes + 1) @@ hold
           /\ refs' = (Next1 :> [n |-> 1, r |-> LastRes + 1]) @@ refs
           /\ gen' = Next1 /\ entry' = LastRes + 1
           /\ mine' = [mine EXCEPT ![t] = <<LastRes + 1, Next1>>]
           /\ mux' = 0 /\ To(t, "holds")
Release(t) == /\ pc[t] = "holds" /\ M!Drop(t)
              /\ refs' = [refs EXCEPT ![mine[t][2]].n = @ - 1]
              /\ To(t, IF refs[mine[t][2]].n = 1 THEN "last" ELSE "idle")
              /\ UNCHANGED <<mux, entry, gen, mine>>
LockL(t) == /\ pc[t] = "last" /\ mux = 0 /\ mux' = t /\ To(t, "clean")
            /\ UNCHANGED <<live, hold, entry, gen, refs, mine>>
\* The resource lives while the entry or some thread between its release and
\* the end of its clean-up refers to it.
Clean(t) == /\ pc[t] = "clean" /\ mux' = 0 /\ To(t, "idle")
            /\ LET r == mine[t][1]
                   rm == entry = r /\ refs[gen].n = 0 IN
               /\ entry' = IF rm THEN 0 ELSE entry
               /\ live' = IF \/ rm /\ Explicit
                             \/ (entry' # r) /\ ~M!Used(r)
                                /\ \A u \in Threads \ {t} :
                                  ~(pc[u] \in {"last", "clean"} /\ mine[u][1] = r)
                          THEN [x \in DOMAIN live \ {r} |-> live[x]] ELSE live
            /\ UNCHANGED <<hold, gen, refs, mine>>
Next == \E t \in Threads : Lock(t) \/ Join(t) \/ Renew(t) \/ Make(t) \/ Release(t) \/ LockL(t) \/ Clean(t)
Spec == Init /\ [][Next]_vars
Bound == Cardinality(DOMAIN refs) <= 6
OnePerKey == M!OnePerKey
UsedLive == \A t \in DOMAIN hold : hold[t] \in DOMAIN live
Quiet == (\A t \in Threads : pc[t] = "idle") => live = << >>
\* Every step is one of the specification.
Refines == [][\/ UNCHANGED <<live, hold>>
              \/ \E s \in Threads, i \in 1 .. MaxRes : M!Hold(s, i)
              \/ \E s \in Threads : M!Drop(s)
              \/ \E i \in 1 .. MaxRes : M!Destroy(i) \/ (M!Of(1) = {} /\ DOMAIN live' = {i})]_vars
=============================================================================
