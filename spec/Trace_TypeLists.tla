-------------------------- MODULE Trace_TypeLists --------------------------
(* [operation, arguments (three), accepted, result]: one use of a compile-time *)
(* operation on lists.  Patterns and instances of templates are the number of *)
(* the template followed by the list.                                         *)
EXTENDS TraceBase
L == INSTANCE TypeLists
VARIABLE n
vars == <<tid, l, n>>
TInit == tid \in 1 .. NT /\ l = 1 /\ n = 0
NullT == 11
\* Predicates of types and of values
TP(p, x) == CASE p = 0 -> x % 2 = 1 [] p = 1 -> x < 4 [] p = 2 -> TRUE [] p = 3 -> FALSE [] OTHER -> x = NullT
VP(p, x) == CASE p = 0 -> x % 2 = 1 [] p = 1 -> x < 4 [] p = 2 -> TRUE [] OTHER -> FALSE
Yes(r) == [ok |-> TRUE, r |-> r]
No == [ok |-> FALSE]
If(c, r(_)) == IF c THEN Yes(r(0)) ELSE No
N(b) == IF b THEN 1 ELSE 0
\* const, volatile, reference, and the type itself; a reference has none of the
\* former and takes none.
Cv(k, to, from) ==
  LET fc == from[1] = 1 /\ from[3] = 0   fv == from[2] = 1 /\ from[3] = 0
      copies == k \in {0, 2, 4}
      tc == IF to[3] = 1 \/ k \in {2, 3} THEN to[1] = 1 ELSE fc \/ (~copies /\ to[1] = 1)
      tv == IF to[3] = 1 \/ k \in {0, 1} THEN to[2] = 1 ELSE fv \/ (~copies /\ to[2] = 1)
  IN <<N(tc), N(tv), to[3], 1>>
\* What a function takes first: the object of a member function
This(k) == CASE k \in {0, 1} -> << >> [] k \in 2 .. 5 -> <<18 + k>> [] k = 6 -> <<24>> [] OTHER -> <<25>>
Item(i) == CASE i[1] = 3 -> i[2] + 10 [] OTHER -> i[2]
IsNull(i) == i[1] = 0
Pairs(t) == L!Join([i \in DOMAIN t[2] |-> <<t[2][i], t[1]>>])
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Expect(op, a, b, c) ==
  CASE op \in {"append", "vappend"} -> Yes(a \o b)
    [] op \in {"prepend", "vprepend"} -> Yes(<<a[1]>> \o b \o Tail(a))
    [] op = "sub" -> If(L!SubOk(b, c, a), LAMBDA z : <<0>> \o L!Sub(b, c, a))
    [] op = "prefix" -> If(b <= Len(a), LAMBDA z : <<0>> \o L!Sub(0, b, a))
    [] op = "suffix" -> If(b <= Len(a), LAMBDA z : <<0>> \o L!Sub(Len(a) - b, b, a))
    [] op = "common" -> Yes(<<0>> \o L!Common(a))
    [] op = "cappend" -> Yes(b \o L!Keep(LAMBDA x : TP(a, x), c))
    [] op = "icappend" -> Yes(b \o L!Drop(LAMBDA x : TP(a, x), c))
    [] op = "filter" -> Yes(<<0>> \o L!Keep(LAMBDA x : TP(a, x), b))
    [] op = "ifilter" -> Yes(<<0>> \o L!Drop(LAMBDA x : TP(a, x), b))
    [] op = "vcond" -> Yes(b \o L!Keep(LAMBDA x : VP(a, x), c))
    [] op = "vicond" -> Yes(b \o L!Drop(LAMBDA x : VP(a, x), c))
    [] op = "vfilter" -> Yes(<<5>> \o L!Keep(LAMBDA x : VP(a, x), b))
    [] op = "vifilter" -> Yes(<<5>> \o L!Drop(LAMBDA x : VP(a, x), b))
    [] op \in {"get", "vget"} -> If(b < Len(a), LAMBDA z : <<a[b + 1]>>)
    [] op = "vcopy" -> Yes(<<b>> \o a)
    [] op = "count" -> Yes(<<L!Count(b, a)>>)
    [] op = "contains" -> Yes(<<N(L!Count(b, a) > 0)>>)
    [] op = "first" -> If(a # << >>, LAMBDA z : <<a[1]>>)
    [] op = "last" -> If(a # << >>, LAMBDA z : <<a[Len(a)]>>)
    [] op = "inst" -> Yes(<<a>> \o L!Join(b))
    [] op = "bools" -> Yes(<<N(L!Count(0, a) = 0), N(L!Count(1, a) > 0), N(L!Count(1, a) = 0)>>)
    [] op = "size" -> Yes(<<Len(a), Len(a)>>)
    [] op = "sizes" -> Yes(<<L!Sum(a), L!Sum(a)>>)
    [] op = "nonull" -> Yes(<<1>> \o L!Drop(LAMBDA x : x = NullT, a))
    [] op = "mknn" -> Yes(Map(Item, L!Drop(IsNull, a)))
    [] op = "nnget" -> If(b < Len(a) /\ ~IsNull(a[b + 1]),
                          LAMBDA z : <<Map(Item, L!Drop(IsNull, a))[L!PlaceWithout(IsNull, b, a) + 1]>>)
    [] op = "apply" -> Yes(L!Join(Map(Pairs, a)) \o <<L!Sum(Map(LAMBDA t : Len(t[2]), a))>>)
    [] op = "fn" -> Yes(<<b>> \o This(a) \o c \o <<0>> \o This(a) \o c)
    [] op = "cv" -> Yes(Cv(a, b, c))
TUse == /\ More
        /\ LET e == Expect(Ev[1], Ev[2], Ev[3], Ev[4]) IN
             IF e.ok THEN Ev[5] = 1 /\ Ev[6] = e.r ELSE Ev[5] = 0
        /\ n' = n + 1 /\ Adv
TNext == TUse
TSpec == TInit /\ [][TNext]_vars
=============================================================================
