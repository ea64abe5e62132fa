-------------------------- MODULE Trace_Concepts --------------------------
(* ["classes", table], then ["models", expressions, accepted, results],      *)
(* ["swap", types, accepted, results] and ["detect", what, accepted, results] *)
EXTENDS TraceBase
VARIABLE cls
K == INSTANCE Concepts WITH C <- cls
vars == <<tid, l, cls>>
TInit == tid \in 1 .. NT /\ l = 1 /\ cls = << >>
N(b) == IF b THEN 1 ELSE 0
TClasses == More /\ Ev[1] = "classes" /\ cls' = Ev[2] /\ Adv
\* The value, and which of the overloads constrained by it are chosen.
TModels == /\ More /\ Ev[1] = "models"
           /\ LET v == N(\A i \in DOMAIN Ev[2] : K!Models(Ev[2][i])) IN
                Ev[3] = 1 /\ Ev[4] = <<v, v, v, v>>
           /\ cls' = cls /\ Adv
\* Types are those of the table, or arrays of them (n > 0), or (i = 0) void,
\* functions, and functions no reference can be to (n = 1, 2, 3).
Refable(t) == t.i # 0 \/ t.n = 2
Lv(t) == IF t.q = 4 THEN [t EXCEPT !.q = 2] ELSE IF t.q = 2 THEN t ELSE [t EXCEPT !.q = 1]
Pair(s, t) == s.i # 0 /\ t.i # 0 /\ s.q = 1 /\ t.q = 1 /\ s.n = t.n /\ (s.n = 0 \/ s.i = t.i)
TSwap == /\ More /\ Ev[1] = "swap"
         /\ LET s == Ev[2][1]   t == Ev[2][2]
                ls == Lv(s) IN
              Ev[3] = 1 /\ Ev[4] =
                <<N(Refable(s)), N(Pair(ls, ls) /\ K!SwapsWith(ls, ls)), N(Pair(ls, ls) /\ K!SwapsWithN(ls, ls)),
                  N(Pair(s, t) /\ K!SwapsWith(s, t)), N(Pair(s, t) /\ K!SwapsWithN(s, t))>>
         /\ cls' = cls /\ Adv
\* An operation gives a type (0: is not there); those of numbers convert to each
\* other (1 int, 2 long, 3 bool), others to themselves (and 6 to 4), and the one
\* which says that there is nothing (9) to nothing.
Conv(a, b) == IF a \in 1 .. 3 THEN b \in 1 .. 3 ELSE (a = b /\ a # 9) \/ (a = 6 /\ b = 4)
TDetect == /\ More /\ Ev[1] = "detect"
           /\ LET got == Ev[2][1]   other == Ev[2][2]   want == Ev[2][3]
                  ty == IF got = 0 THEN 9 ELSE got IN
                Ev[3] = 1 /\ Ev[4] =
                  <<N(got # 0), ty, IF got = 0 THEN other ELSE got, N(got # 0),
                    IF got = 0 THEN other ELSE got, N(ty = want), N(Conv(ty, want))>>
           /\ cls' = cls /\ Adv
TNext == TClasses \/ TModels \/ TSwap \/ TDetect
TSpec == TInit /\ [][TNext]_vars
=============================================================================
