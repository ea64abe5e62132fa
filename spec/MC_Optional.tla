---------------------------- MODULE MC_Optional ----------------------------
(* The algorithm: storage with a flag, in which elements are made, assigned   *)
(* and destroyed one micro-step at a time; each making and assigning may      *)
(* throw, which ends the operation.  Checked against Optional.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS VALUES, SLOTS, MOVES
VARIABLES o, moves,     \* abstract
          flag, cell,   \* cell: 0 raw memory, or an element of that value
          todo,         \* micro-steps left
          spec,         \* the operation under way: <<name, args...>>
          bad
C == INSTANCE Optional
vars == <<o, moves, flag, cell, todo, spec, bad>>
TMP == 99             \* the temporary used by swaps
ALL == SLOTS \cup {TMP}
Init == /\ o = [i \in SLOTS |-> 0] /\ moves = MOVES
        /\ flag = [i \in SLOTS |-> FALSE] /\ cell = [i \in ALL |-> 0]
        /\ todo = << >> /\ spec = << >> /\ bad = FALSE
\* Micro-steps.
Kill(i) == <<<<"kill", i>>, <<"flag", i, FALSE>>>>
Reset(i) == IF flag[i] THEN Kill(i) ELSE << >>
Make(i, v) == <<<<"make", i, v>>, <<"flag", i, TRUE>>>>
Prog(s) ==
  LET n == s[1]  i == s[2] IN
  CASE n = "emplace" -> Reset(i) \o Make(i, s[3])
    [] n = "set" -> IF flag[i] THEN <<<<"assign", i, s[3]>>>> ELSE Make(i, s[3])
    [] n = "null" -> Reset(i)
    [] n = "copy" -> LET j == s[3] IN
         IF flag[j] THEN (IF flag[i] THEN <<<<"assignFrom", i, j, FALSE>>>> ELSE <<<<"makeFrom", i, j, FALSE>>, <<"flag", i, TRUE>>>>)
         ELSE Reset(i)
    [] n = "move" -> LET j == s[3] IN
         IF flag[j] THEN (IF flag[i] THEN <<<<"assignFrom", i, j, TRUE>>>> ELSE <<<<"makeFrom", i, j, TRUE>>, <<"flag", i, TRUE>>>>)
         ELSE Reset(i)
    [] n = "swap" -> LET j == s[3] IN
         IF flag[i] /\ flag[j] THEN <<<<"makeFrom", TMP, i, TRUE>>, <<"assignFrom", i, j, TRUE>>, <<"assignFrom", j, TMP, TRUE>>, <<"kill", TMP>>>>
         ELSE IF flag[i] THEN <<<<"makeFrom", j, i, TRUE>>, <<"flag", j, TRUE>>>> \o Kill(i)
         ELSE IF flag[j] THEN <<<<"makeFrom", i, j, TRUE>>, <<"flag", i, TRUE>>>> \o Kill(j)
         ELSE << >>
Ops == {<<"emplace", i, v>> : i \in SLOTS, v \in VALUES} \cup {<<"set", i, v>> : i \in SLOTS, v \in VALUES}
       \cup {<<"null", i>> : i \in SLOTS}
       \cup {<<"copy", i, j>> : i \in SLOTS, j \in SLOTS}
       \cup {p \in {<<n, i, j>> : n \in {"move", "swap"}, i \in SLOTS, j \in SLOTS} : p[2] # p[3]}
Abs(s, thrown) ==
  LET n == s[1]  i == s[2] IN
  \/ n = "emplace" /\ C!Emplace(i, s[3], thrown)
  \/ n = "set" /\ C!Assign(i, s[3], thrown)
  \/ n = "null" /\ C!Put(i, 0)
  \/ n = "copy" /\ C!Copy(i, s[3], thrown)
  \/ n = "move" /\ C!Move(i, s[3], thrown)
  \/ n = "swap" /\ C!Swap(i, s[3], thrown)
Start == /\ todo = << >> /\ spec = << >> /\ \E s \in Ops : spec' = s /\ todo' = Prog(s)
         /\ UNCHANGED <<o, moves, flag, cell, bad>>
Val == [i \in SLOTS |-> IF flag[i] THEN cell[i] ELSE 0]
\* The operation has ended: the outcome must be one the specification allows.
Finish == /\ todo = << >> /\ spec # << >> /\ Abs(spec, FALSE)
          /\ bad' = (bad \/ o' # Val) /\ spec' = << >> /\ UNCHANGED <<flag, cell, todo>>
Failed == /\ spec[1] = "thrown" /\ LET s == spec[2] IN
             IF s[1] = "swap" THEN \* specified up to what is left in the two
                  /\ bad' = (bad \/ ~ \E a, b \in {o[s[2]], o[s[3]], C!MOVED} : Val = [o EXCEPT ![s[2]] = a, ![s[3]] = b])
                  /\ o' = Val /\ UNCHANGED moves
             ELSE Abs(s, TRUE) /\ bad' = (bad \/ o' # Val)
          /\ spec' = << >> /\ UNCHANGED <<flag, cell, todo>>
Throws == {"make", "assign", "makeFrom", "assignFrom"}
Throw == /\ todo # << >> /\ todo[1][1] \in Throws
         /\ todo' = << >> /\ spec' = <<"thrown", spec>>
         /\ cell' = [cell EXCEPT ![TMP] = 0]   \* (unwound)
         /\ UNCHANGED <<o, moves, flag, bad>>
Step ==
  /\ todo # << >> /\ todo' = Tail(todo) /\ UNCHANGED <<o, moves, spec>>
  /\ LET t == todo[1]  n == t[1]  i == t[2] IN
     CASE n = "kill" -> cell' = [cell EXCEPT ![i] = 0] /\ bad' = (bad \/ cell[i] = 0) /\ UNCHANGED flag
       [] n = "flag" -> flag' = [flag EXCEPT ![i] = t[3]] /\ UNCHANGED <<cell, bad>>
       [] n = "make" -> cell' = [cell EXCEPT ![i] = t[3]] /\ bad' = (bad \/ cell[i] # 0) /\ UNCHANGED flag
       [] n = "assign" -> cell' = [cell EXCEPT ![i] = t[3]] /\ bad' = (bad \/ cell[i] = 0) /\ UNCHANGED flag
       [] n \in {"makeFrom", "assignFrom"} ->
            LET j == t[3] IN
            /\ cell' = [[cell EXCEPT ![j] = IF t[4] /\ moves THEN C!MOVED ELSE @] EXCEPT ![i] = cell[j]]
            /\ bad' = (bad \/ cell[j] = 0 \/ ((cell[i] = 0) # (n = "makeFrom"))) /\ UNCHANGED flag
Next == IF spec # << >> /\ spec[1] = "thrown" THEN Failed
        ELSE Start \/ Step \/ Throw \/ Finish
Spec == Init /\ [][Next]_vars
\* Nothing is used before it is made or after it is destroyed; outcomes are as specified.
Good == ~ bad
\* Between operations there is an element exactly where the flag says so.
Honest == todo = << >> => \A i \in SLOTS : flag[i] = (cell[i] # 0)
Clean == todo = << >> => cell[TMP] = 0
=============================================================================
