-------------------------- MODULE Trace_Literals ---------------------------
(* ["lit", text, bytes, signed, strict, accepted, value]: a literal of a type *)
(* of so many bytes, whether too large ones are to be refused, whether the    *)
(* compiler took it, and the bytes of its value, the lowest first.            *)
EXTENDS TraceBase
L == INSTANCE Literals WITH B <- 256
VARIABLE n
vars == <<tid, l, n>>
TInit == tid \in 1 .. NT /\ l = 1 /\ n = 0
\* Texts which are not integers of the three bases are refused; binary ones and
\* those with separators may be, but are not taken for something else.
Plain(s) == ~L!Bin(s) /\ \A i \in DOMAIN s : s[i] # 39
TLit == /\ Is("lit")
        /\ LET s == Ev[2]  v == L!Value(s) IN
             IF L!IsInteger(s) THEN
               IF Ev[5] = 1 /\ ~L!Fits(v, Ev[3], Ev[4] = 1) THEN Ev[6] = 0
               ELSE IF Ev[6] = 1 THEN Ev[7] = L!Low(v, Ev[3]) ELSE ~Plain(s)
             ELSE Ev[6] = 0
        /\ n' = n + 1 /\ Adv
TNext == TLit
TSpec == TInit /\ [][TNext]_vars
=============================================================================
