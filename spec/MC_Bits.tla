------------------------------- MODULE MC_Bits ------------------------------
(* The algorithm: blocks of W bits, of which those beyond the length have any *)
(* value; whole blocks are operated on.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, MAX
VARIABLES o, blk, n
C == INSTANCE Bits
vars == <<o, blk, n>>
S == {1, 2}
Blocks == [1 .. W -> {0, 1}]
Count(x) == (x + W - 1) \div W
Init == o = [i \in S |-> << >>] /\ blk = [i \in S |-> << >>] /\ n = [i \in S |-> 0]
Flat(b) == [k \in 1 .. W * Len(b) |-> b[((k - 1) \div W) + 1][((k - 1) % W) + 1]]
Unflat(s) == [c \in 1 .. Len(s) \div W |-> [k \in 1 .. W |-> s[(c - 1) * W + k]]]
Val(i) == SubSeq(Flat(blk[i]), 1, n[i])
Put(i, b, len) == blk' = [blk EXCEPT ![i] = b] /\ n' = [n EXCEPT ![i] = len]
All(b) == [k \in 1 .. W |-> b]
Resized(b, c, x) == [k \in 1 .. c |-> IF k <= Len(b) THEN b[k] ELSE All(x)]
Fill == \E i \in S, b \in {0, 1} : C!Set(i, C!All(n[i], b)) /\ Put(i, [c \in 1 .. Len(blk[i]) |-> All(b)], n[i])
Flip == \E i \in S : C!Flip(i) /\ Put(i, [c \in 1 .. Len(blk[i]) |-> [k \in 1 .. W |-> 1 - blk[i][c][k]]], n[i])
\* (in growing, excess bits become bits)
Resize == \E i \in S, len \in 0 .. MAX :
  LET b == Resized(blk[i], Count(len), 0) IN C!Resize(i, len, Flat(b)) /\ Put(i, b, len)
Push == \E i \in S, x \in {0, 1} :
  /\ n[i] < MAX /\ C!Push(i, x)
  /\ LET b == IF n[i] % W = 0 THEN Append(blk[i], All(0)) ELSE blk[i] IN
     Put(i, [b EXCEPT ![Len(b)] = [@ EXCEPT ![(n[i] % W) + 1] = x]], n[i] + 1)
Pop == \E i \in S : /\ n[i] > 0 /\ C!Pop(i)
  /\ Put(i, IF (n[i] - 1) % W = 0 THEN SubSeq(blk[i], 1, Len(blk[i]) - 1) ELSE blk[i], n[i] - 1)
Change == \E i \in S : \E p \in 1 .. n[i], op \in 0 .. 5, x \in {0, 1} :
  C!Change(i, p, op, x) /\ Put(i, Unflat([Flat(blk[i]) EXCEPT ![p] = C!Bit(op, @, x)]), n[i])
Swap == C!Swap(1, 2) /\ blk' = [i \in S |-> blk[3 - i]] /\ n' = [i \in S |-> n[3 - i]]
Op == \E i, j \in S, op \in 0 .. 2 :
  /\ n[i] = n[j] /\ C!Op(op, i, j)
  /\ Put(i, Unflat([k \in 1 .. W * Len(blk[i]) |-> C!Bit(IF op = 0 THEN 2 ELSE IF op = 1 THEN 1 ELSE 3, Flat(blk[i])[k], Flat(blk[j])[k])]), n[i])
\* Appending, block by block: what is in use of the last block is kept, each new
\* block is spread over it and the next, unless that would not be needed.
Shl(b, r) == [k \in 1 .. W |-> IF k > r THEN b[k - r] ELSE 0]
Shr(b, r) == [k \in 1 .. W |-> IF k + r <= W THEN b[k + r] ELSE 0]
RECURSIVE Spread(_, _, _, _, _)
Spread(b, src, c, at, r) ==    \* src[c] goes to b[at - 1] and b[at]
  IF c > Len(src) THEN b
  ELSE LET x == src[c]
           b1 == [b EXCEPT ![at - 1] = [k \in 1 .. W |-> IF k <= r THEN @[k] ELSE Shl(x, r)[k]]]
           b2 == IF at <= Len(b) THEN [b1 EXCEPT ![at] = Shr(x, W - r)] ELSE b1 IN
       Spread(b2, src, c + 1, at + 1, r)
Cat == \E i, j \in S :
  LET len == n[i] + n[j]  r == n[i] % W  b == Resized(blk[i], Count(len), 0) IN
  /\ len <= MAX /\ C!Cat(i, j)
  /\ Put(i, IF r = 0 THEN blk[i] \o blk[j] ELSE Spread(b, blk[j], 1, Len(blk[i]) + 1, r), len)
Next == Fill \/ Flip \/ Resize \/ Push \/ Pop \/ Change \/ Swap \/ Op \/ Cat
Spec == Init /\ [][Next]_vars
Same == \A i \in S : o[i] = Val(i)
Blocked == \A i \in S : Len(blk[i]) = Count(n[i])
\* Equality looks at whole blocks but the last, and at the bits in use of that.
Equals == (o[1] = o[2]) =
  (n[1] = n[2] /\ (n[1] > 0 => LET last == Len(blk[1]) IN
     /\ \A c \in 1 .. last - 1 : blk[1][c] = blk[2][c]
     /\ \A k \in 1 .. ((n[1] - 1) % W) + 1 : blk[1][last][k] = blk[2][last][k]))
=============================================================================
