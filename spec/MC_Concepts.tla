---------------------------- MODULE MC_Concepts ----------------------------
(* Laws of the concepts, over all classes of a few features: a value class,   *)
(* one with a base, and an iterator, built up feature by feature.             *)
EXTENDS Integers, Sequences
VARIABLES cls, step
K == INSTANCE Concepts WITH C <- cls
vars == <<cls, step>>
Good == [kind |-> "K", cls |-> 1, dc |-> 2, cc |-> 2, mc |-> 2, ca |-> 2, ma |-> 2, dt |-> 1, sw |-> 0, cb |-> 1,
         c2 |-> 1, cmp |-> <<1, 1, 1, 1, 1, 1>>, xc |-> <<0, 0, 0, 0, 0, 0>>, nul |-> <<1, 1, 1, 1>>, asg |-> 1,
         ari |-> 0, x |-> 0, up |-> 0,
         tr |-> 1, val |-> 0, ref |-> 0, der |-> 1, pre |-> 1, post |-> 1, dpre |-> 1, dpost |-> 1, idx |-> 1,
         pe |-> 1, me |-> 1, pl |-> 1, npl |-> 1, mi |-> 1, df |-> 1]
Table == <<Good, [Good EXCEPT !.up = 1], [Good EXCEPT !.kind = "iter"]>>
Init == cls = Table /\ step = 0
Set(i, r) == cls' = [cls EXCEPT ![i] = r]
Next ==
  /\ step' = step + 1
  /\ \/ step = 0 /\ \E d \in {0, 2}, c \in 0 .. 2, g \in 0 .. 1 : Set(1, [Good EXCEPT !.dc = d, !.cc = c, !.dt = g, !.up = 3])
     \/ step = 1 /\ cls[1].up = 3 /\ \E m \in 0 .. 3, ca \in 0 .. 2, ma \in {0, 1, 3}, s \in 0 .. 3 :
           Set(1, [cls[1] EXCEPT !.up = 0, !.mc = m, !.ca = ca, !.ma = ma, !.sw = s])
     \/ step = 0 /\ \E e \in 0 .. 6, x \in 0 .. 3, g \in 0 .. 2, n \in 0 .. 3 :
           Set(1, [Good EXCEPT !.cmp[1] = e, !.cb = x, !.asg = g, !.nul[2] = n])
     \/ step = 0 /\ \E x \in 0 .. 4, e \in {0, 1, 2}, u \in 0 .. 1, w \in 0 .. 3 :
           Set(2, [Good EXCEPT !.x = x, !.xc[1] = e, !.up = u, !.cb = w])
     \/ step = 0 /\ \E r \in 0 .. 2, d \in 0 .. 4 : Set(3, [Table[3] EXCEPT !.ref = r, !.der = d, !.up = 1])
     \/ step = 1 /\ cls[3].up = 1 /\ \E p \in {0, 1, 4}, q \in 0 .. 5, v \in 0 .. 1, z \in 0 .. 5 :
           Set(3, [cls[3] EXCEPT !.up = 0, !.pre = p, !.post = q, !.val = v, !.dpost = z])
     \/ step = 0 /\ \E r \in 0 .. 1, d \in 0 .. 4, p \in 0 .. 4, i \in 0 .. 3, c \in 0 .. 1 :
           Set(3, [Table[3] EXCEPT !.ref = r, !.der = r + 1, !.dpre = p, !.idx = i, !.cmp[2] = c, !.df = d])
Spec == Init /\ [][Next]_vars
Types == {[i |-> i, q |-> q] : i \in 1 .. 3, q \in 0 .. 2}
Un(c, t) == K!Concept(c, <<t>>)
Bi(c, s, t) == K!Concept(c, <<s, t>>)
Implies(c, d) == \A t \in Types : Un(c, t) => Un(d, t)
E(c, t) == [o |-> "c", c |-> c, t |-> <<t>>]
X(o, a) == [o |-> o, a |-> a]
Laws ==
  /\ \A c \in {"DefaultConstructible", "MoveConstructible", "CopyConstructible", "MoveAssignable", "CopyAssignable"} :
       Implies("Nothrow" \o c, c)
  /\ Implies("DefaultConstructible", "Destructible") /\ Implies("MoveConstructible", "Destructible")
  /\ \A c \in {"EqualityComparable", "InequalityComparable", "DefaultConstructible", "CopyConstructible",
               "CopyAssignable", "Destructible", "Swappable"} : Implies("NullablePointer", c)
  /\ Implies("RandomAccessIterator", "BidirectionalIterator")
  /\ Implies("BidirectionalIterator", "ForwardIterator") /\ Implies("ForwardIterator", "InputIterator")
  /\ Implies("InputIterator", "Iterator") /\ Implies("OutputIterator", "Iterator")
  /\ Implies("ValueSwappable", "Iterator")
  /\ \A t \in Types :
       /\ (Un("ForwardIterator", t) /\ K!R(t).ref = 1) => ~Un("OutputIterator", t)
       /\ K!Concept("Constructible", <<t, t>>) = Un("MoveConstructible", t)
       /\ K!Concept("Constructible", <<t, [t EXCEPT !.q = 2]>>) =
            (IF t.q = 1 THEN FALSE ELSE Un("CopyConstructible", t))
       /\ Un("EqualityComparable", t) = Bi("EqualityComparable", t, t)
       /\ Un("EqualityComparable", [t EXCEPT !.q = 0]) =>
            Un("EqualityComparable", [t EXCEPT !.q = 1]) /\ Un("EqualityComparable", [t EXCEPT !.q = 2])
       /\ Bi("Same", t, t) /\ (t.q = 0 => Bi("DecaysTo", t, t))
       /\ (Un("MoveConstructible", t) => Bi("ConvertibleTo", t, t))
       /\ (K!SwapsWithN(t, t) => K!SwapsWith(t, t))
  /\ \A s, t \in Types :
       /\ Bi("Same", s, t) = Bi("Same", t, s) /\ Bi("Swappable", s, t) = Bi("Swappable", t, s)
       /\ Bi("BaseOf", s, t) = Bi("DerivedFrom", t, s)
       /\ (Bi("BaseOf", s, t) /\ Bi("BaseOf", t, s) => s = t)
       /\ s.q + t.q = 0 =>
            LET p == E("CopyConstructible", s)   q == E("EqualityComparable", t) IN
              /\ K!Models(X("Not", <<X("All", <<p, q>>)>>)) =
                   K!Models(X("Any", <<X("Not", <<p>>), X("Not", <<q>>)>>))
              /\ K!Models(X("None", <<p, q>>)) = K!Models(X("Not", <<X("Any", <<p, q>>)>>))
              /\ K!Models(X("All", <<p, X("All", << >>), q>>)) = K!Models(X("All", <<q, p>>))
=============================================================================
