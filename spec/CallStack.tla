----------------------------- MODULE CallStack -----------------------------
(* Per thread and kind of stack, the contexts entered and not yet left, the   *)
(* innermost first, each <<key, value>>.                                      *)
EXTENDS Integers, Sequences
VARIABLE st                   \* st[t][n]
Put(t, n, x) == st' = [st EXCEPT ![t] = [@ EXCEPT ![n] = x]]
Enter(t, n, k, v) == Put(t, n, << <<k, v>> >> \o st[t][n])
Leave(t, n) == st[t][n] # << >> /\ Put(t, n, Tail(st[t][n]))
SetVal(t, n, i, v) == i \in 1 .. Len(st[t][n]) /\ Put(t, n, [st[t][n] EXCEPT ![i] = <<@[1], v>>])
SetKey(t, n, i, k) == i \in 1 .. Len(st[t][n]) /\ Put(t, n, [st[t][n] EXCEPT ![i] = <<k, @[2]>>])
\* The innermost with this key, 0 if there is none.
Find(t, n, k) ==
  LET s == {i \in 1 .. Len(st[t][n]) : st[t][n][i][1] = k}
  IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
=============================================================================
