------------------------------- MODULE MC_Map -------------------------------
(* The algorithm: buckets by hash, with references to boxes on the heap which *)
(* hold key and value; entries are searched for among those of equal hash.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KEYS, VALUES, BOXES, MAPS, HASHES
VARIABLES m, bucket, box    \* map -> hash -> set of boxes; box -> <<key, value>> or <<>>
C == INSTANCE Map
vars == <<m, bucket, box>>
Hash(k) == k % HASHES
Hs == 0 .. HASHES - 1
Init == m = [i \in MAPS |-> << >>] /\ bucket = [i \in MAPS |-> [h \in Hs |-> {}]] /\ box = [b \in BOXES |-> << >>]
Found(i, k) == {b \in bucket[i][Hash(k)] : box[b] # << >> /\ box[b][1] = k}
Free == {b \in BOXES : box[b] = << >>}
Of(i) == UNION {bucket[i][h] : h \in Hs}
Insert == \E i \in MAPS, k \in KEYS, v \in VALUES, b \in Free :
  /\ C!Insert(i, k, v, b)
  /\ IF Found(i, k) # {} THEN UNCHANGED <<bucket, box>>
     ELSE bucket' = [bucket EXCEPT ![i][Hash(k)] = @ \cup {b}] /\ box' = [box EXCEPT ![b] = <<k, v>>]
InsertOrAssign == \E i \in MAPS, k \in KEYS, v \in VALUES, b \in Free :
  /\ C!InsertOrAssign(i, k, v, b)
  /\ IF Found(i, k) # {} THEN box' = [c \in BOXES |-> IF c \in Found(i, k) THEN <<k, v>> ELSE box[c]] /\ UNCHANGED bucket
     ELSE bucket' = [bucket EXCEPT ![i][Hash(k)] = @ \cup {b}] /\ box' = [box EXCEPT ![b] = <<k, v>>]
Erase == \E i \in MAPS, k \in KEYS :
  /\ C!Erase(i, {k})
  /\ bucket' = [bucket EXCEPT ![i][Hash(k)] = @ \ Found(i, k)]
  /\ box' = [c \in BOXES |-> IF c \in Found(i, k) THEN << >> ELSE box[c]]
Clear == \E i \in MAPS :
  C!Clear(i) /\ bucket' = [bucket EXCEPT ![i] = [h \in Hs |-> {}]] /\ box' = [c \in BOXES |-> IF c \in Of(i) THEN << >> ELSE box[c]]
\* The structure is copied, then every reference replaced by one to a new box.
Copy == \E i, j \in MAPS :
  /\ i # j /\ \E f \in [Of(j) -> Free] :
     /\ \A a, b \in Of(j) : f[a] = f[b] => a = b
     /\ \A a, b \in Of(j) : box[a][1] < box[b][1] => f[a] < f[b]   \* (which is which does not matter)
     /\ C!Copy(i, j, [k \in DOMAIN m[j] |-> f[CHOOSE b \in Found(j, k) : TRUE]])
     /\ bucket' = [bucket EXCEPT ![i] = [h \in Hs |-> {f[b] : b \in bucket[j][h]}]]
     /\ box' = [c \in BOXES |-> IF \E b \in Of(j) : f[b] = c THEN box[CHOOSE b \in Of(j) : f[b] = c]
                                ELSE IF c \in Of(i) THEN << >> ELSE box[c]]
Move == \E i, j \in MAPS : i # j /\ C!Move(i, j)
  /\ bucket' = [bucket EXCEPT ![i] = bucket[j], ![j] = [h \in Hs |-> {}]]
  /\ box' = [c \in BOXES |-> IF c \in Of(i) THEN << >> ELSE box[c]]
Swap == \E i, j \in MAPS : i < j /\ C!Swap(i, j) /\ bucket' = [bucket EXCEPT ![i] = bucket[j], ![j] = bucket[i]] /\ UNCHANGED box
Next == Insert \/ InsertOrAssign \/ Erase \/ Clear \/ Copy \/ Move \/ Swap
Spec == Init /\ [][Next]_vars
\* Lookups find exactly what is in the map, wherever it is.
SameAnswers == \A i \in MAPS, k \in KEYS :
  IF C!Has(i, k) THEN Cardinality(Found(i, k)) = 1 /\ \A b \in Found(i, k) : box[b][2] = C!Val(i, k) /\ b = m[i][k][2]
  ELSE Found(i, k) = {}
NoLeak == \A b \in BOXES : box[b] # << >> => \E i \in MAPS : b \in Of(i)
NotShared == \A i, j \in MAPS : i # j => Of(i) \cap Of(j) = {}
Counted == \A i \in MAPS : C!Size(m[i]) = Cardinality(Of(i))
=============================================================================
