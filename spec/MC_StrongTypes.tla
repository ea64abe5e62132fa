--------------------------- MODULE MC_StrongTypes ---------------------------
(* All histories of updates of two registers of three bits; what must be    *)
(* undone by its opposite is.                                               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind, reg
S == INSTANCE StrongTypes WITH Reg <- 0 .. 1
Kinds == {"i3", "u3", "b"}
Vals(k) == CASE k = "i3" -> -4 .. 3 [] k = "u3" -> 0 .. 7 [] k = "b" -> 0 .. 1
OpsOf(k) == IF k = "b" THEN {"^", "&", "|"} ELSE S!Ops
Init == \E k \in Kinds : S!Init(k)
Next == \/ \E a, b \in 0 .. 1, op \in OpsOf(kind) :
             (op \in {"/", "%"} => reg[b] # 0) /\ S!Assign(op, a, reg[b])
        \/ \E a \in 0 .. 1, v \in Vals(kind) : S!Set(a, v)
        \/ kind # "b" /\ \E a \in 0 .. 1, d \in {-1, 1} : S!Step(a, d)
        \/ S!Swap(0, 1)
Spec == Init /\ [][Next]_<<kind, reg>>
TypeOK == \A a \in 0 .. 1 : reg[a] \in Vals(kind)
P(op, a, b) == S!Apply(kind, op, a, b)
Laws ==
  LET x == reg[0]  y == reg[1]  o == S!Order(kind, x, y)  w == S!Order(kind, y, x) IN
  /\ kind # "b" => /\ P("-", P("+", x, y), y) = x
                   /\ (y # 0 => P("+", P("*", P("/", x, y), y), P("%", x, y)) = x)
                   /\ P("-", P("+", P("&", x, y), P("|", x, y)), y) = x
  /\ P("^", P("^", x, y), y) = x
  /\ P("|", P("&", x, y), P("^", x, y)) = P("|", x, y)
  \* one of <, =, >; each comparison the opposite of another
  /\ Cardinality({k \in {1, 3, 5} : o[k]}) = 1
  /\ o[2] = ~o[1] /\ o[4] = ~o[5] /\ o[6] = ~o[3] /\ o[3] = w[5] /\ o[4] = w[6]
=============================================================================
