---------------------------- MODULE MC_MpscQueue ----------------------------
(* The linked-list algorithm: exchange the tail, then link the predecessor;    *)
(* the consumer moves the datum of the successor into the old dummy node.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Producers, Items      \* each producer pushes Items items
VARIABLES q, tail, head, nxt, datum, pc, cnt, old, got
M == INSTANCE MpscQueue
vars == <<q, tail, head, nxt, datum, pc, cnt, old, got>>
\* Nodes are named by the item they were pushed with; 0 is the first dummy.
Item(p, i) == p * 10 + i
Nodes == {0} \cup {Item(p, i) : p \in Producers, i \in 1 .. Items}
Nil == -1
Init == /\ M!Init /\ tail = 0 /\ head = 0 /\ nxt = [n \in Nodes |-> Nil]
        /\ datum = [n \in Nodes |-> n] /\ pc = [p \in Producers |-> "x"]
        /\ cnt = [p \in Producers |-> 1] /\ old = [p \in Producers |-> 0] /\ got = << >>
Exchange(p) == /\ pc[p] = "x" /\ cnt[p] <= Items
               /\ old' = [old EXCEPT ![p] = tail] /\ tail' = Item(p, cnt[p])
               /\ pc' = [pc EXCEPT ![p] = "l"] /\ M!Place(Item(p, cnt[p]))
               /\ UNCHANGED <<head, nxt, datum, cnt, got>>
DoLink(p) == /\ pc[p] = "l" /\ nxt' = [nxt EXCEPT ![old[p]] = Item(p, cnt[p])]
             /\ pc' = [pc EXCEPT ![p] = "x"] /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
             /\ M!Link(Item(p, cnt[p]))
             /\ UNCHANGED <<tail, head, datum, old, got>>
Pop == /\ nxt[head] # Nil
       /\ LET x == datum[nxt[head]] IN
            /\ datum' = [datum EXCEPT ![head] = x]
            /\ got' = Append(got, x) /\ M!Pop(x)
       /\ head' = nxt[head]
       /\ UNCHANGED <<tail, nxt, pc, cnt, old>>
Next == Pop \/ \E p \in Producers : Exchange(p) \/ DoLink(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* The list shows an item exactly when the specification does.
Agree == (nxt[head] # Nil) <=> M!Visible
NoDuplicates == \A i, j \in 1 .. Len(got) : i # j => got[i] # got[j]
PerProducerFifo == \A i, j \in 1 .. Len(got) :
                     (i < j /\ got[i] \div 10 = got[j] \div 10) => got[i] < got[j]
AllArrive == <>(Len(got) = Cardinality(Producers) * Items)
=============================================================================
