---------------------------- MODULE Trace_Packed ----------------------------
EXTENDS TraceBase
VARIABLES f, there, meta
C == INSTANCE Packed
vars == <<tid, l, f, there, meta>>
TInit == tid \in 1 .. NT /\ l = 1 /\ f = [i \in 0 .. 2 |-> << >>] /\ there = [i \in 0 .. 2 |-> FALSE] /\ meta = << >>
Bit(b) == IF b THEN 1 ELSE 0
Bytes(x) == C!Flat(x) \o <<1, 2>>
\* -1: more than there is.
RECURSIVE SumUp(_)
SumUp(s) == IF s = << >> THEN 0 ELSE IF Head(s) < 0 \/ SumUp(Tail(s)) < 0 THEN -1 ELSE Head(s) + SumUp(Tail(s))
Times(s, n) == [k \in 1 .. Len(s) |-> IF n[k] < 0 THEN -1 ELSE s[k] * n[k]]
Dyn(m) == {k \in 1 .. Len(m[2]) : m[3][k] # m[4][k]}
RECURSIVE Limits(_, _)     \* the limits of dynamic fields
Limits(m, k) == IF k > Len(m[2]) THEN << >>
                ELSE (IF k \in Dyn(m) THEN << <<m[3][k], m[4][k]>> >> ELSE << >>) \o Limits(m, k + 1)
Meta(e) == LET lo == SumUp(Times(e[2], e[3]))  hi == SumUp(Times(e[2], e[4]))  d == Cardinality(Dyn(e)) IN
  /\ e[5] = Len(e[2]) /\ e[6] = d /\ e[7] = Bit(d > 0) /\ e[8] = lo /\ e[9] = hi /\ e[10] = lo /\ e[11] = hi
Valid(e) == LET m == Limits(meta, 1) IN
  e[3] = Bit(\A k \in 1 .. Len(e[2]) : e[2][k] >= m[k][1] /\ (m[k][2] < 0 \/ e[2][k] <= m[k][2]))
Made(e) == LET w == e[3] IN e[4] = C!Offsets(w) /\ e[5] = C!Sum(w) /\ e[6] = 1 /\ Len(e[7]) = C!Sum(w) + 2
Cmp(a, b) == <<Bit(a = b), Bit(a # b), Bit(a < b), Bit(a <= b), Bit(a > b), Bit(a >= b)>>
Pointer(e) == LET s == e[2]  a == e[3]  b == e[4]  q == a * s IN
  /\ e[5] = q /\ e[6] = b * s /\ e[7] = a - b
  /\ e[8] \in {<< >>, <<q, q + s, q + s, q, q + s, q>>}
  /\ e[9] = q /\ e[10] = 0 /\ e[11] = Cmp(a, b) /\ e[12] = 1
All(x, v) == \A k \in 1 .. Len(x) : x[k] = v
Op ==
  \/ Is("new") /\ Test(Made(Ev)) /\ C!New(Ev[2], C!Cut(Ev[7], Ev[3])) /\ Ev[7] = Bytes(f'[Ev[2]])
  \/ Is("sizes") /\ Ev[3] = 1 /\ C!Same
  \/ Is("valid") /\ Test(Valid(Ev)) /\ C!Same
  \/ Is("set") /\ C!Set(Ev[2], Ev[3], Ev[4], Ev[5]) /\ Ev[6] = Bytes(f'[Ev[2]])
  \/ Is("get") /\ C!Same /\ Ev[5] = C!Get(Ev[2], Ev[3], Ev[4], Len(Ev[5]))
  \/ Is("ptr") /\ C!Same /\ Test(Pointer(Ev))
  \* Failing, nothing happens.
  \/ /\ Is("copy")
     /\ (IF Ev[4] = 1 THEN C!Same ELSE C!Copy(Ev[2], Ev[3]))
     /\ (IF there'[Ev[2]] THEN Ev[5] = C!Sum(C!Widths(f'[Ev[2]])) /\ Ev[6] = Bytes(f'[Ev[2]]) ELSE Ev[6] = <<1, 2>>)
  \/ Is("move") /\ C!Move(Ev[2], Ev[3]) /\ Ev[4] = C!Sum(C!Widths(f'[Ev[2]])) /\ Ev[5] = Bytes(f'[Ev[2]]) /\ Ev[6] = 1
  \/ Is("out") /\ C!Out(Ev[2]) /\ Ev[3] = C!Flat(f[Ev[2]]) /\ Ev[4] = 1
  \/ Is("empty") /\ C!Out(Ev[2]) /\ Ev[3] = 1
  \/ /\ Is("eq") /\ C!Same
     /\ LET r == Bit(C!Flat(f[Ev[2]]) = C!Flat(f[Ev[3]])) IN Test(All(Ev[4], r) /\ All(Ev[5], 1 - r))
TNext ==
  /\ Adv
  /\ \/ Op /\ UNCHANGED meta
     \/ Is("meta") /\ Test(Meta(Ev)) /\ meta' = Ev /\ C!Same
     \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ C!Same /\ UNCHANGED meta
TSpec == TInit /\ [][TNext]_vars
=============================================================================
