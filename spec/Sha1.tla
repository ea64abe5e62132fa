------------------------------- MODULE Sha1 ---------------------------------
(* SHA-1 of sequences of bytes (FIPS 180-4).  Words of 32 bits are pairs    *)
(* of halves, as TLC's own integers are too narrow.                         *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt
LOCAL P == [k \in 0 .. 16 |-> 2 ^ k]
LOCAL W2(a, b) == <<a, b>>
LOCAL Add2(a, b) == LET s == a[2] + b[2] IN <<(a[1] + b[1] + (s \div 65536)) % 65536, s % 65536>>
LOCAL Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL Or2(a, b) == <<a[1] | b[1], a[2] | b[2]>>
LOCAL Not2(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL RotLow(a, n) == <<((a[1] * P[n]) % 65536) + (a[2] \div P[16 - n]),
                        ((a[2] * P[n]) % 65536) + (a[1] \div P[16 - n])>>
LOCAL Rot(a, n) == IF n >= 16 THEN RotLow(<<a[2], a[1]>>, n - 16) ELSE RotLow(a, n)

LOCAL Zeros(n) == [k \in 1 .. n |-> 0]
\* The message, a bit, zeros and the length in bits, in blocks of 64 bytes.
Padded(m) ==
  LET n == Len(m)
      z == (119 - (n % 64)) % 64
      b == n * 8
  IN m \o <<128>> \o Zeros(z + 4) \o <<(b \div 16777216) % 256, (b \div 65536) % 256, (b \div 256) % 256, b % 256>>
LOCAL WordAt(p, k) == <<(p[k] * 256) + p[k + 1], (p[k + 2] * 256) + p[k + 3]>>
LOCAL Schedule16(p, off) == [t \in 1 .. 16 |-> WordAt(p, off + (4 * (t - 1)) + 1)]
LOCAL Schedule(w16) ==
  FoldLeft(LAMBDA w, t : Append(w, Rot(Xor2(Xor2(w[t - 3], w[t - 8]), Xor2(w[t - 14], w[t - 16])), 1)),
           w16, [k \in 1 .. 64 |-> 16 + k])
LOCAL F(t, b, c, d) ==
  CASE t <= 20 -> Or2(And2(b, c), And2(Not2(b), d))
    [] t > 20 /\ t <= 40 -> Xor2(Xor2(b, c), d)
    [] t > 40 /\ t <= 60 -> Or2(Or2(And2(b, c), And2(b, d)), And2(c, d))
    [] OTHER -> Xor2(Xor2(b, c), d)
LOCAL K(t) == CASE t <= 20 -> <<23170, 31129>> [] t > 20 /\ t <= 40 -> <<28377, 60321>>
                [] t > 40 /\ t <= 60 -> <<36635, 48348>> [] OTHER -> <<51810, 49622>>
LOCAL Rounds(w, h) ==
  FoldLeft(LAMBDA s, t :
             <<Add2(Add2(Add2(Rot(s[1], 5), F(t, s[2], s[3], s[4])), Add2(s[5], K(t))), w[t]),
               s[1], Rot(s[2], 30), s[3], s[4]>>,
           h, [k \in 1 .. 80 |-> k])
LOCAL Blocks(p, h0) ==
  FoldLeft(LAMBDA h, n : LET s == Rounds(Schedule(Schedule16(p, 64 * (n - 1))), h)
                         IN [k \in 1 .. 5 |-> Add2(h[k], s[k])],
           h0, [k \in 1 .. (Len(p) \div 64) |-> k])
H0 == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
Bytes2(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Digest(m) == LET h == Blocks(Padded(m), H0)
             IN Bytes2(h[1]) \o Bytes2(h[2]) \o Bytes2(h[3]) \o Bytes2(h[4]) \o Bytes2(h[5])
\* Known answers: of nothing, of "abc" and of 56 letters.
ASSUME Digest(<< >>) = <<218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96, 24, 144, 175, 216, 7, 9>>
ASSUME Digest(<<97, 98, 99>>) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
=============================================================================
