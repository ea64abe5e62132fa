-------------------------------- MODULE Map ---------------------------------
(* Maps from keys to values; each value is an object with an identity, which  *)
(* it keeps as long as the key stays in (some) map.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE m            \* map number -> (key -> <<value, identity>>)
Has(i, k) == k \in DOMAIN m[i]
Val(i, k) == IF Has(i, k) THEN m[i][k][1] ELSE 0
Ids(ms) == UNION {{ms[i][k][2] : k \in DOMAIN ms[i]} : i \in DOMAIN ms}
Size(f) == Cardinality(DOMAIN f)
Without(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
\* An object made now is none of those in use.
Fresh(ids) == ids \cap Ids(m) = {}
Set(i, f) == m' = [m EXCEPT ![i] = f]
Same == m' = m
\* The first value of a key stays ...
Insert(i, k, v, id) == IF Has(i, k) THEN Same ELSE Fresh({id}) /\ Set(i, (k :> <<v, id>>) @@ m[i])
\* ... unless assigned to, which leaves it the same object.
Put(i, k, v) == Has(i, k) /\ Set(i, [m[i] EXCEPT ![k] = <<v, @[2]>>])
InsertOrAssign(i, k, v, id) == IF Has(i, k) THEN Put(i, k, v) ELSE Insert(i, k, v, id)
Erase(i, ks) == Set(i, Without(m[i], ks))
Clear(i) == Set(i, << >>)
\* A copy has the same values in other objects.
Copy(i, j, id) ==
  /\ Cardinality({id[k] : k \in DOMAIN m[j]}) = Size(m[j]) /\ Fresh({id[k] : k \in DOMAIN m[j]})
  /\ Set(i, [k \in DOMAIN m[j] |-> <<m[j][k][1], id[k]>>])
Move(i, j) == m' = [m EXCEPT ![i] = m[j], ![j] = << >>]
Swap(i, j) == m' = [m EXCEPT ![i] = m[j], ![j] = m[i]]
\* kvs: <<key, value, key, value, ...>>, of which the first value per key counts.
RECURSIVE First(_, _)
First(kvs, k) == IF kvs[1] = k THEN kvs[2] ELSE First(SubSeq(kvs, 3, Len(kvs)), k)
Keys(kvs) == {kvs[2 * n - 1] : n \in 1 .. Len(kvs) \div 2}
Many(i, fresh, kvs, id) ==
  LET old == IF fresh THEN << >> ELSE m[i]
      new == Keys(kvs) \ DOMAIN old IN
  /\ Cardinality({id[k] : k \in new}) = Cardinality(new) /\ Fresh({id[k] : k \in new})
  /\ Set(i, [k \in new |-> <<First(kvs, k), id[k]>>] @@ old)
Equal(i, j) == DOMAIN m[i] = DOMAIN m[j] /\ \A k \in DOMAIN m[i] : m[i][k][1] = m[j][k][1]
=============================================================================
