------------------------------ MODULE Concepts ------------------------------
(* Which types model which concepts.  A class is a record of what it declares *)
(* (C is the table of them); a type is a class and how it is passed: q = 0 by *)
(* value, 1 by reference, 2 by reference to const.  A concept applied to      *)
(* types is an expression, as are combinations of expressions.                *)
EXTENDS Integers, Sequences
VARIABLE C
R(t) == C[t.i]
Cls(t) == t.i
Same(s, t) == s.i = t.i /\ s.q = t.q
\* Special members: 0 deleted, 1 there, 2 there and not throwing; moves can also
\* be undeclared (3), which leaves them to the copies.
There(m) == m \in {1, 2}
Destructible(r) == r.dt = 1
Def(r) == There(r.dc) /\ Destructible(r)
DefN(r) == r.dc = 2 /\ Destructible(r)
CopyC(r) == There(r.cc) /\ Destructible(r)
CopyCN(r) == r.cc = 2 /\ Destructible(r)
Mc(r) == IF r.mc = 3 THEN r.cc ELSE r.mc
Ma(r) == IF r.ma = 3 THEN r.ca ELSE r.ma
MoveC(r) == There(Mc(r)) /\ Destructible(r)
MoveCN(r) == Mc(r) = 2 /\ Destructible(r)
\* The same for types passed in other ways: references are bound, and assigned
\* through unless to const.
Moves(t) == t.q > 0 \/ MoveC(R(t))
MovesN(t) == t.q > 0 \/ MoveCN(R(t))
Copies(t) == t.q > 0 \/ CopyC(R(t))
CopiesN(t) == t.q > 0 \/ CopyCN(R(t))
Defaults(t) == t.q = 0 /\ Def(R(t))
DefaultsN(t) == t.q = 0 /\ DefN(R(t))
Gone(t) == t.q > 0 \/ Destructible(R(t))
CopyAs(t) == t.q < 2 /\ There(R(t).ca)
CopyAsN(t) == t.q < 2 /\ R(t).ca = 2
MoveAs(t) == IF t.q = 0 THEN There(Ma(R(t))) ELSE CopyAs(t)
MoveAsN(t) == IF t.q = 0 THEN Ma(R(t)) = 2 ELSE CopyAsN(t)
IntArg(t) == R(t).kind = "int" /\ t.q = 0
Constructs(t, as) ==
  CASE as = << >> -> Defaults(t)
    [] Len(as) = 2 /\ IntArg(as[1]) /\ IntArg(as[2]) -> t.q = 0 /\ There(R(t).c2) /\ Gone(t)
    [] Len(as) = 1 /\ Cls(as[1]) = Cls(t) ->
         CASE t.q = 1 -> as[1].q = 1 [] t.q = 2 -> TRUE
           [] OTHER -> IF as[1].q = 0 THEN Moves(t) ELSE Copies(t)
    [] OTHER -> FALSE
ConstructsN(t, as) ==
  /\ Constructs(t, as)
  /\ CASE as = << >> -> DefaultsN(t)
       [] Len(as) = 2 -> R(t).c2 = 2
       [] OTHER -> t.q > 0 \/ (IF as[1].q = 0 THEN MovesN(t) ELSE CopiesN(t))
\* Bases: up is the direct base of a class (0: none).
RECURSIVE Bases(_)
Bases(i) == {i} \cup (IF C[i].up = 0 THEN {} ELSE Bases(C[i].up))
BaseOf(a, b) == a.q = 0 /\ b.q = 0 /\ R(a).cls = 1 /\ Cls(a) \in Bases(Cls(b))
\* Conversions; cb: none, implicit, explicit, implicit of what is not const.
ToBool(r, const) == r.cb = 1 \/ (r.cb = 3 /\ ~const)
IsBool(t) == R(t).kind = "bool" /\ t.q = 0
Converts(f, t) ==
  IF IsBool(t) /\ Cls(f) # Cls(t) THEN ToBool(R(f), f.q = 2)
  ELSE /\ Cls(t) \in Bases(Cls(f))
       /\ CASE t.q = 0 -> IF f.q = 0 THEN Moves(t) ELSE Copies(t)
            [] t.q = 1 -> f.q = 1
            [] OTHER -> TRUE
\* Swapping two lvalues: by the types' own function (1; 2 deleted; 3 not
\* throwing), by moving, or by that of two types with the first class (x).
StdSwap(r) == MoveC(r) /\ There(Ma(r))
StdSwapN(r) == MoveCN(r) /\ Ma(r) = 2
Swaps1(r) == r.sw \in {1, 3} \/ (r.sw = 0 /\ StdSwap(r))
Swaps1N(r) == r.sw = 3 \/ (r.sw = 0 /\ StdSwapN(r))
Cross(i, j) == IF j = 1 /\ i # 1 THEN C[i].x ELSE IF i = 1 /\ j # 1 THEN C[j].x ELSE 0
SwapsWith(s, t) == /\ s.q < 2 /\ t.q < 2
                   /\ IF Cls(s) = Cls(t) THEN Swaps1(R(s)) ELSE Cross(Cls(s), Cls(t)) > 1
SwapsWithN(s, t) == /\ s.q < 2 /\ t.q < 2
                    /\ IF Cls(s) = Cls(t) THEN Swaps1N(R(s)) ELSE Cross(Cls(s), Cls(t)) = 4
\* Comparisons: what is declared (none, bool, void, of a left side which is not
\* const, implicitly bool, explicitly bool, of sides which are not const; from 7,
\* bool but in one of four cases: neither const, left, right, both), and what
\* conversions of both sides to bool allow.
Consts(t) == CASE t.q = 0 -> {TRUE, FALSE} [] t.q = 1 -> {FALSE} [] OTHER -> {TRUE}
Viable(o, lc, rc) == CASE o = 0 -> FALSE [] o = 3 -> ~lc [] o = 6 -> ~lc /\ ~rc [] OTHER -> TRUE
Declared(s, t, j) == IF Cls(s) = Cls(t) THEN R(s).cmp[j] ELSE IF Cls(t) = 1 THEN R(s).xc[j] ELSE 0
Compares(s, t, j) ==
  LET o == Declared(s, t, j) IN
  \A lc \in Consts(s), rc \in Consts(t) :
    IF Viable(o, lc, rc) THEN o \in {1, 3, 4, 6} \/ (o > 6 /\ o - 7 # (IF lc THEN 1 ELSE 0) + (IF rc THEN 2 ELSE 0)) ELSE ToBool(R(s), lc) /\ ToBool(R(t), rc)
Nullable(t) ==
  /\ Compares(t, t, 1) /\ Compares(t, t, 2) /\ Defaults(t) /\ Copies(t) /\ CopyAs(t) /\ Gone(t)
  /\ SwapsWith(t, t) /\ ToBool(R(t), t.q = 2) /\ \A k \in 1 .. 4 : R(t).nul[k] = 1
  /\ R(t).asg = 1
\* Calls: what takes n arguments in way p (value, reference, to const, rvalue),
\* of what is const (or can be), by what reference (any, lvalue, rvalue).
Takes(p, q) == CASE p = 1 -> q = 1 [] p = 3 -> q = 0 [] OTHER -> TRUE
Ops(f, as, const, rvalue) ==
  {k \in DOMAIN R(f).ops :
     LET o == R(f).ops[k] IN
       /\ o.n = Len(as) /\ (o.c = 1 \/ ~const)
       /\ CASE o.r = 0 -> TRUE [] o.r = 1 -> ~rvalue \/ o.c = 1 [] OTHER -> rvalue
       /\ \A i \in DOMAIN as : Takes(o.p, as[i].q)}
Callable(f, as) == Ops(f, as, f.q = 2, FALSE) # {}
Predicate(f, as) == Callable(f, as) /\ \E k \in Ops(f, as, f.q = 2, f.q = 0) : R(f).ops[k].ret \in {1, 2, 3}
\* Hash functions of the class "key"; p: const reference, reference, value,
\* rvalue, template of const reference, template of anything.  With b, the result
\* is another in one of six cases: lvalues, rvalues and constant rvalues, given to
\* what is not const and what is.
Hash(h, k) == /\ h.q = 0 /\ R(h).kind = "hash" /\ CopyC(R(h)) /\ R(h).ret = 0 /\ R(h).cst = 1
              /\ (R(h).key = Cls(k) \/ R(h).p > 3)
              /\ (R(h).p \in {0, 2, 4, 5} \/ (R(h).p = 1 /\ k.q = 1))
              /\ CASE k.q = 0 -> R(h).b = 0 [] k.q = 1 -> R(h).b \notin {1, 2} [] OTHER -> TRUE
\* Iterators.  References: 0 to values, 1 to constant values, 2 values.
Iter(t) == LET r == R(t) IN
  /\ r.kind = "iter" /\ t.q = 0 /\ r.tr = 1 /\ CopyC(r) /\ CopyAs(t) /\ SwapsWith(t, t)
  /\ r.der = r.ref + 1 /\ r.pre = 1
\* Results of postfix operators: none, the iterator, a constant one, nothing, a
\* proxy, itself, what converts to it but refers to nothing, what also does.
Again(p) == p \in {1, 2, 5, 7}
Input(t) == Iter(t) /\ Compares(t, t, 1) /\ Compares(t, t, 2) /\ (Again(R(t).post) \/ R(t).post = 4)
Stores(r) == r.der = 1 \/ (r.der = 3 /\ r.val = 1)
Output(t) == Iter(t) /\ Again(R(t).post) /\ Stores(R(t))
Forward(t) == /\ Input(t) /\ Defaults(t) /\ Again(R(t).post)
              /\ R(t).ref = (IF Output(t) THEN 0 ELSE 1)
Bidi(t) == Forward(t) /\ Again(R(t).dpost) /\ R(t).dpre = 1
Random(t) == LET r == R(t) IN
  /\ Bidi(t) /\ \A j \in 3 .. 6 : Compares(t, t, j)
  /\ (IF r.ref = 0 THEN r.idx = 1 ELSE r.idx > 0)
  /\ r.pe = 1 /\ r.me = 1 /\ r.pl = 1 /\ r.npl = 1 /\ r.mi = 1 /\ r.df = 1
ValueSwaps(t) == Iter(t) /\ R(t).ref # 1
Is(t, k) == t.q = 0 /\ R(t).ari \in k
Arity(n, as, v) == Len(as) = n /\ v
Comparisons == [EqualityComparable |-> 1, InequalityComparable |-> 2, LessThanComparable |-> 3,
                LessOrEqualComparable |-> 4, GreaterThanComparable |-> 5, GreaterOrEqualComparable |-> 6]
IterKinds == {"Iterator", "InputIterator", "OutputIterator", "ForwardIterator",
              "BidirectionalIterator", "RandomAccessIterator"}
IterTo == [IteratorTo |-> "Iterator", InputIteratorTo |-> "InputIterator", OutputIteratorTo |-> "OutputIterator",
           ForwardIteratorTo |-> "ForwardIterator", BidirectionalIteratorTo |-> "BidirectionalIterator",
           RandomAccessIteratorTo |-> "RandomAccessIterator"]
IterIs(c, t) == CASE c = "Iterator" -> Iter(t) [] c = "InputIterator" -> Input(t)
                  [] c = "OutputIterator" -> Output(t) [] c = "ForwardIterator" -> Forward(t)
                  [] c = "BidirectionalIterator" -> Bidi(t) [] OTHER -> Random(t)
\* Concepts of one type, by value or not
Unary(c, t) ==
  CASE c = "DefaultConstructible" -> Defaults(t) [] c = "NothrowDefaultConstructible" -> DefaultsN(t)
    [] c = "MoveConstructible" -> Moves(t) [] c = "NothrowMoveConstructible" -> MovesN(t)
    [] c = "CopyConstructible" -> Copies(t) [] c = "NothrowCopyConstructible" -> CopiesN(t)
    [] c = "MoveAssignable" -> MoveAs(t) [] c = "NothrowMoveAssignable" -> MoveAsN(t)
    [] c = "CopyAssignable" -> CopyAs(t) [] c = "NothrowCopyAssignable" -> CopyAsN(t)
    [] c = "Destructible" -> Gone(t) [] c = "Swappable" -> SwapsWith(t, t)
    [] c = "NullablePointer" -> Nullable(t) [] c = "ValueSwappable" -> ValueSwaps(t)
    [] c = "Integral" -> Is(t, {1, 2}) [] c = "Signed" -> Is(t, {1, 3})
    [] c = "Unsigned" -> Is(t, {2}) [] c = "SignedIntegral" -> Is(t, {1})
    [] c = "UnsignedIntegral" -> Is(t, {2})
    [] c \in DOMAIN Comparisons -> Compares(t, t, Comparisons[c])
    [] c \in IterKinds -> IterIs(c, t)
    [] OTHER -> FALSE
Binary(c, s, t) ==
  CASE c = "Same" -> Same(s, t) [] c = "BaseOf" -> BaseOf(s, t) [] c = "DerivedFrom" -> BaseOf(t, s)
    [] c = "ConvertibleTo" -> Converts(s, t) [] c = "DecaysTo" -> t.q = 0 /\ Cls(s) = Cls(t)
    [] c = "Swappable" -> SwapsWith(s, t) [] c = "Hash" -> Hash(s, t)
    [] c \in DOMAIN Comparisons -> Compares(s, t, Comparisons[c])
    [] c \in DOMAIN IterTo ->
         /\ IterIs(IterTo[c], s)
         /\ t.q = 0 /\ R(t).kind = (IF R(s).val = 0 THEN "int" ELSE "W")
    [] OTHER -> FALSE
Concept(c, ts) ==
  CASE ts # << >> /\ c \in {"Callable", "Predicate", "UnaryPredicate", "BinaryPredicate", "TrinaryPredicate"} ->
         LET f == Head(ts)   as == Tail(ts) IN
           CASE c = "Callable" -> Callable(f, as) [] c = "Predicate" -> Predicate(f, as)
             [] c = "UnaryPredicate" -> Len(as) = 1 /\ Predicate(f, as)
             [] c = "BinaryPredicate" -> Len(as) = 2 /\ Predicate(f, as)
             [] OTHER -> Len(as) = 3 /\ Predicate(f, as)
    [] ts # << >> /\ c = "Constructible" -> Constructs(Head(ts), Tail(ts))
    [] ts # << >> /\ c = "NothrowConstructible" -> ConstructsN(Head(ts), Tail(ts))
    [] Len(ts) = 1 -> Unary(c, ts[1])
    [] Len(ts) = 2 -> Binary(c, ts[1], ts[2])
    [] OTHER -> FALSE
\* Expressions: concepts of types, combinations, and what is none of both.
RECURSIVE Models(_)
Models(e) ==
  CASE e.o = "c" -> Concept(e.c, e.t)
    [] e.o = "All" -> \A i \in DOMAIN e.a : Models(e.a[i])
    [] e.o = "Any" -> \E i \in DOMAIN e.a : Models(e.a[i])
    [] e.o = "None" -> \A i \in DOMAIN e.a : ~Models(e.a[i])
    [] e.o = "Not" -> Len(e.a) = 1 /\ ~Models(e.a[1])
    [] OTHER -> FALSE
=============================================================================
