--------------------------- MODULE MC_HappensBefore ---------------------------
(* Litmus programs: the race predicate must accept exactly the well            *)
(* synchronised ones, in every interleaving.  Location 0 is data, 1 a flag.    *)
EXTENDS Naturals, Sequences
Th == 0 .. 1
VARIABLES vc, acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec, mode, pc, flag, mux, raced
H == INSTANCE HappensBefore
hb == <<vc, acqp, relf, rel, own, pw, pr, aw, ar, mx, sc, ec>>
vars == <<hb, mode, pc, flag, mux, raced>>
Modes == {"relacq", "relaxed", "halfrel", "halfacq", "fences", "mutex", "join", "sequence", "plainflag"}
Racy == {"relaxed", "halfrel", "halfacq", "plainflag"}
\* Program of each thread: a sequence of steps.
P0(m) == CASE m = "relacq" -> <<"W", "ASr">> [] m = "relaxed" -> <<"W", "ASx">>
           [] m = "halfrel" -> <<"W", "ASr">> [] m = "halfacq" -> <<"W", "ASx">>
           [] m = "fences" -> <<"W", "Fr", "ASx">> [] m = "mutex" -> <<"L", "W", "S", "U">>
           [] m = "join" -> <<"W", "X", "S">> [] m = "sequence" -> <<"W", "ASr", "RMWx">>
           [] m = "plainflag" -> <<"W", "PW">>
P1(m) == CASE m \in {"relacq", "halfacq", "sequence"} -> <<"ALa", "R">>
           [] m \in {"relaxed", "halfrel"} -> <<"ALx", "R">>
           [] m = "fences" -> <<"ALx", "Fa", "R">> [] m = "mutex" -> <<"L", "T", "R", "U">>
           [] m = "join" -> <<"T", "J", "R">> [] m = "plainflag" -> <<"ALa", "R">>
Prog(t) == IF t = 0 THEN P0(mode) ELSE P1(mode)
Init == /\ H!InitHB(0 .. 1) /\ mode \in Modes /\ pc = [t \in Th |-> 1]
        /\ flag = 0 /\ mux = 9 /\ raced = FALSE
Try(A) == (A /\ raced' = raced) \/ (~ENABLED A /\ raced' = TRUE /\ UNCHANGED hb)
Need == IF mode = "sequence" THEN 2 ELSE 1
Step(t) ==
  /\ pc[t] <= Len(Prog(t)) /\ ~raced
  /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ mode' = mode
  /\ LET s == Prog(t)[pc[t]] IN
     \/ s = "W" /\ Try(H!Write(t, 0)) /\ UNCHANGED <<flag, mux>>
     \/ s = "PW" /\ Try(H!Write(t, 1)) /\ flag' = 1 /\ UNCHANGED mux
     \/ s = "R" /\ Try(H!Read(t, 0)) /\ UNCHANGED <<flag, mux>>
     \/ s = "ASr" /\ Try(H!AStore(t, 1, 2)) /\ flag' = 1 /\ UNCHANGED mux
     \/ s = "ASx" /\ Try(H!AStore(t, 1, 0)) /\ flag' = 1 /\ UNCHANGED mux
     \/ s = "RMWx" /\ Try(H!ARmw(t, 1, 0)) /\ flag' = flag + 1 /\ UNCHANGED mux
     \/ s = "ALa" /\ flag >= Need /\ Try(H!ALoad(t, 1, 1)) /\ UNCHANGED <<flag, mux>>
     \/ s = "ALx" /\ flag >= Need /\ Try(H!ALoad(t, 1, 0)) /\ UNCHANGED <<flag, mux>>
     \/ s = "Fr" /\ Try(H!Fence(t, 2)) /\ UNCHANGED <<flag, mux>>
     \/ s = "Fa" /\ Try(H!Fence(t, 1)) /\ UNCHANGED <<flag, mux>>
     \/ s = "L" /\ mux = 9 /\ (t = 1 => flag = 1) /\ Try(H!Lock(t, 0)) /\ mux' = t /\ UNCHANGED flag
     \/ s = "U" /\ Try(H!Unlock(t, 0)) /\ mux' = 9 /\ UNCHANGED flag
     \/ s = "S" /\ flag' = 1 /\ UNCHANGED <<hb, raced, mux>>
     \/ s = "T" /\ flag = 1 /\ UNCHANGED <<hb, raced, mux, flag>>
     \/ s = "X" /\ Try(H!Exit(t)) /\ UNCHANGED <<flag, mux>>
     \/ s = "J" /\ Try(H!JoinT(t, 0)) /\ UNCHANGED <<flag, mux>>
Next == \E t \in Th : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoFalseRace == raced => mode \in Racy
RaceSeen == <>(raced \/ mode \notin Racy)
=============================================================================
