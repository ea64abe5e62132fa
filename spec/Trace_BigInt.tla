---------------------------- MODULE Trace_BigInt ----------------------------
EXTENDS TraceBase
VARIABLES n, v
C == INSTANCE BigInt
vars == <<tid, l, n, v>>
TInit == tid \in 1 .. NT /\ l = 1 /\ n = 0 /\ v = << >>
Bit(b) == IF b THEN 1 ELSE 0
\* The registers as they were found, and that no other bits were set.
Regs(r) == \A i \in 0 .. 2 : r[i + 1] = v'[i]
Bin(o, x, y) == CASE o = "+" -> C!Add(x, y) [] o = "-" -> C!Sub(x, y) [] o = "*" -> C!Mul(x, y)
                  [] o = "&" -> C!AndOf(x, y) [] o = "|" -> C!OrOf(x, y) [] o = "^" -> C!XorOf(x, y)
Un(o, x) == CASE o = "~" -> C!Inv(x) [] o = "-" -> C!Neg(x) [] o = "++" -> C!Add(x, C!Small(1)) [] o = "--" -> C!Sub(x, C!Small(1))
\* Negative numbers go on with ones.
Number(b, neg) == C!Fit(b, IF neg = 1 THEN 255 ELSE 0)
Digit(c, up) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF up = 1 /\ c >= 65 /\ c <= 70 THEN c - 55
                ELSE IF up = 0 /\ c >= 97 /\ c <= 102 THEN c - 87 ELSE 99
Printed(x, base, up, plus, s) ==
  IF x = C!Zero THEN s = <<48>> ELSE
  /\ (plus = 1 => s[1] = 43)
  /\ LET d == [i \in 1 .. Len(s) - plus |-> Digit(s[i + plus], up)] IN
     /\ Len(d) > 0 /\ d[1] > 0 /\ \A i \in 1 .. Len(d) : d[i] < base
     /\ C!Value(d, base) = Append(x, 0)
Cmp(x, y) == <<Bit(x = y), Bit(x # y), Bit(C!Less(x, y)), Bit(~ C!Less(y, x)), Bit(C!Less(y, x)), Bit(~ C!Less(x, y))>>
BitOp(o, b, a) == CASE o = "=" -> a [] o = "|" -> (IF a = 1 THEN 1 ELSE b) [] o = "&" -> (IF a = 1 THEN b ELSE 0)
                    [] o = "^" -> (b + a) % 2 [] o = "-" -> (IF a = 1 THEN 0 ELSE b) [] o = "flip" -> 1 - b [] o = "get" -> b
\* Demoted to k bits (k = 1: whether there is any).
Demoted(x, k, b) ==
  IF k = 1 THEN b = <<Bit(x # C!Zero)>>
  ELSE \A i \in 1 .. Len(b) : LET m == k - 8 * (i - 1) IN
         b[i] = (IF m <= 0 THEN 0 ELSE IF m < 8 THEN C!At(x, i) % C!Pow2(m) ELSE C!At(x, i))
\* All of few bits, against integers.
Small(o, N, x, y) == LET m == 2 ^ N IN
  CASE o = "+" -> (x + y) % m [] o = "-" -> (x + m - y) % m [] o = "*" -> (x * y) % m
    [] o = "/" -> (IF y = 0 THEN -1 ELSE x \div y) [] o = "%" -> (IF y = 0 THEN -1 ELSE x % y)
    [] o = "<" -> Bit(x < y) [] o = "=" -> Bit(x = y)
    [] o = "<<" -> (IF y >= N THEN -1 ELSE (x * 2 ^ y) % m) [] o = ">>" -> (IF y >= N THEN -1 ELSE x \div 2 ^ y)
Row(e) == \A y \in 0 .. 2 ^ e[3] - 1 : e[5][y + 1] = Small(e[2], e[3], e[4], y)
Op ==
  \/ Is("meta") /\ n' = Ev[2] /\ v' = [i \in 0 .. 2 |-> [j \in 1 .. (n' + 7) \div 8 |-> 0]] /\ Regs(Ev[3])
  \/ Is("load") /\ C!Put(Ev[2], Number(Ev[3], Ev[4])) /\ Regs(Ev[5])
  \/ Is("bin") /\ C!Put(Ev[3], Bin(Ev[2], v[Ev[4]], v[Ev[5]])) /\ Regs(Ev[6])
  \* With a small number on either side.
  \/ Is("binl") /\ C!Put(Ev[3], Bin(Ev[2], v[Ev[4]], C!Small(Ev[5]))) /\ Regs(Ev[6])
  \/ Is("binr") /\ C!Put(Ev[3], Bin(Ev[2], C!Small(Ev[5]), v[Ev[4]])) /\ Regs(Ev[6])
  \/ Is("div") /\ UNCHANGED <<n, v>> /\ Regs(Ev[6]) /\ v[Ev[3]] # C!Zero /\ Test(C!IsDivision(v[Ev[2]], v[Ev[3]], Ev[4], Ev[5]))
  \* In place.
  \/ /\ Is("divin") /\ v[Ev[4]] # C!Zero /\ C!Put(Ev[3], Ev[6][Ev[3] + 1]) /\ Regs(Ev[6])
     /\ LET q == IF Ev[2] = "/" THEN v'[Ev[3]] ELSE Ev[5]  r == IF Ev[2] = "%" THEN v'[Ev[3]] ELSE Ev[5] IN
        Test(C!IsDivision(v[Ev[3]], v[Ev[4]], q, r))
  \* Refused, with nothing changed.
  \/ Is("zero") /\ UNCHANGED <<n, v>> /\ Regs(Ev[3]) /\ v[Ev[2]] = C!Zero
  \/ Is("un") /\ C!Put(Ev[3], Un(Ev[2], v[Ev[4]])) /\ Regs(Ev[6]) /\ Ev[5] = (IF Ev[7] = 1 THEN v[Ev[4]] ELSE v'[Ev[3]])
  \/ Is("shl") /\ C!Put(Ev[2], C!Shl(v[Ev[3]], Ev[4])) /\ Regs(Ev[5])
  \/ Is("shr") /\ C!Put(Ev[2], C!Shr(v[Ev[3]], Ev[4])) /\ Regs(Ev[5])
  \/ Is("copy") /\ C!Put(Ev[2], v[Ev[3]]) /\ Regs(Ev[4])
  \/ Is("cmp") /\ UNCHANGED <<n, v>> /\ Ev[4] = Cmp(v[Ev[2]], v[Ev[3]]) /\ Ev[5] = Bit(v[Ev[2]] = C!Zero)
  \/ /\ Is("bit")
     /\ LET b == C!Bit(v[Ev[2]], Ev[3])  r == BitOp(Ev[4], b, Ev[5]) IN
        C!Put(Ev[2], C!SetBit(v[Ev[2]], Ev[3], r)) /\ Ev[6] = r
     /\ Regs(Ev[7])
  \/ Is("demote") /\ UNCHANGED <<n, v>> /\ Test(Demoted(v[Ev[2]], Ev[3], Ev[4]))
  \/ Is("print") /\ UNCHANGED <<n, v>> /\ Test(Printed(v[Ev[2]], Ev[3], Ev[4], Ev[5], Ev[6]))
  \/ Is("full") /\ UNCHANGED <<n, v>> /\ Ev[2] = 1 /\ Regs(Ev[3])
  \/ Is("row") /\ UNCHANGED <<n, v>> /\ Test(Row(Ev))
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED <<n, v>>
TNext == Adv /\ Op
TSpec == TInit /\ [][TNext]_vars
=============================================================================
