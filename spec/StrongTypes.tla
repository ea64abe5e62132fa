----------------------------- MODULE StrongTypes ----------------------------
(* Values of strong types (StrongType.h): registers of a wrapped kind of    *)
(* number, which must behave exactly like the number they wrap.             *)
(*   i8, i16, u8, u16  integers that wrap around                            *)
(*   i32, ptr          integers kept from overflowing by those who use them *)
(*   f64               floating point holding whole numbers, or NaN         *)
(*   b                 0 and 1                                              *)
EXTENDS Integers, Sequences, Bitwise
CONSTANT Reg
VARIABLES kind, reg
Pow == [k \in 0 .. 30 |-> 2 ^ k]
NaN == 2147483647
Width(k) == CASE k \in {"i8", "u8"} -> 8 [] k \in {"i16", "u16"} -> 16
              [] k = "i3" -> 3 [] k = "u3" -> 3 [] OTHER -> 24
Signed(k) == k \in {"i8", "i16", "i32", "i3"}
Wraps(k) == k \in {"i8", "u8", "i16", "u16", "i3", "u3"}
Wrap(k, v) ==
  LET m == Pow[Width(k)] IN
  IF k = "b" THEN (IF v = 0 THEN 0 ELSE 1)
  ELSE IF ~Wraps(k) THEN v
  ELSE IF Signed(k) THEN ((v + (m \div 2)) % m) - (m \div 2) ELSE v % m
Abs(v) == IF v < 0 THEN -v ELSE v
\* Division that truncates towards zero.
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Rem(a, b) == a - (b * Quot(a, b))
\* Two's complement.
Bit2(k, Op(_, _), a, b) ==
  LET m == Pow[Width(k)]  r == Op(a % m, b % m)
  IN IF Signed(k) /\ r >= m \div 2 THEN r - m ELSE r
Exact(k, op, a, b) ==
  CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b
    [] op = "/" -> Quot(a, b) [] op = "%" -> Rem(a, b)
    [] op = "^" -> Bit2(k, LAMBDA x, y : x ^^ y, a, b)
    [] op = "&" -> Bit2(k, LAMBDA x, y : x & y, a, b)
    [] op = "|" -> Bit2(k, LAMBDA x, y : x | y, a, b)
Ops == {"+", "-", "*", "/", "%", "^", "&", "|"}
Apply(k, op, a, b) == IF k = "f64" /\ NaN \in {a, b} THEN NaN ELSE Wrap(k, Exact(k, op, a, b))

\* ==, !=, <, <=, >, >=
Order(k, a, b) ==
  IF k = "f64" /\ NaN \in {a, b} THEN <<FALSE, TRUE, FALSE, FALSE, FALSE, FALSE>>
  ELSE <<a = b, a # b, a < b, a <= b, a > b, a >= b>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
\* The characters written to a stream (character types write themselves).
Text(k, v) == IF k \in {"i8", "u8"} THEN <<v % 256>>
              ELSE IF k = "f64" /\ v = NaN THEN <<110, 97, 110>>
              ELSE IF v < 0 THEN <<45>> \o Digits(-v) ELSE Digits(v)

Init(k) == kind = k /\ reg = [r \in Reg |-> 0]
Set(a, v) == reg' = [reg EXCEPT ![a] = v] /\ UNCHANGED kind
\* reg[a] op= v
Assign(op, a, v) == Set(a, Apply(kind, op, reg[a], v))
Step(a, d) == Assign("+", a, d)
Swap(a, b) == reg' = [reg EXCEPT ![a] = reg[b], ![b] = reg[a]] /\ UNCHANGED kind
=============================================================================
