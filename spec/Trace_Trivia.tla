---------------------------- MODULE Trace_Trivia ----------------------------
(* [operation, three arguments, accepted, result]                             *)
EXTENDS TraceBase, SequencesExt
T == INSTANCE Trivia
VARIABLE n
vars == <<tid, l, n>>
TInit == tid \in 1 .. NT /\ l = 1 /\ n = 0
N(b) == IF b THEN 1 ELSE 0
Flat(s) == FoldLeft(LAMBDA a, b : a \o b, << >>, s)
Expect(op, a, b, c) ==
  CASE op = "rmcvref" -> T!NoCvRef(a)
    [] op = "unwrap" -> T!Unwrap(a)
    [] op = "stripdecay" -> T!Unwrap(T!Decay(a))
    [] op = "same" -> a
    [] op \in {"enum", "maybe"} -> <<b>> \o a
    [] op = "walk" -> <<T!Walk(b, c, a), T!SizeOf(a)>>
    [] op = "dist" -> <<b>>
    [] op = "alloc" -> T!Alloc(a)
    [] op = "copy" -> T!Copied(c, b[1], b[2], b[3], a)
    [] op = "duration" -> <<a \div b, a>>
    [] op = "time" -> IF a[1] = 1 THEN <<b[1], b[2]>> ELSE c
    [] op = "return" -> <<a, 1, b>>
    [] op = "assertion" -> LET o == T!Asserted(a, b = 1, c) IN <<N(o.on)>> \o Flat(o.says)
TUse == /\ More
        /\ Ev[5] = 1 /\ Ev[6] = Expect(Ev[1], Ev[2], Ev[3], Ev[4])
        /\ n' = n + 1 /\ Adv
TNext == TUse
TSpec == TInit /\ [][TNext]_vars
=============================================================================
