---------------------------- MODULE Trace_Owning ----------------------------
(* Histories of what owns things: sets of shared items (slots 1 to 3),        *)
(* arrays, data and vectors (three of them, by content), descriptors, scope   *)
(* guards, data loaded from files that shrink, fail and are read in parts.    *)
EXTENDS TraceBase
VARIABLES slot, in, key, own, open, raw, val, stack, exc, file
S == INSTANCE SharedSet
H == INSTANCE Handles
sv == <<slot, in, key>>
hv == <<own, open, raw>>
vars == <<tid, l, slot, in, key, own, open, raw, val, stack, exc, file>>
NoFile == [len |-> 0, now |-> << >>, read |-> << >>, short |-> FALSE, eio |-> FALSE, err |-> 0, kind |-> 9]
TInit == /\ tid \in 1 .. NT /\ l = 1 /\ slot = [s \in 1 .. 3 |-> 0] /\ in = {} /\ key = << >>
         /\ own = [h \in 1 .. 3 |-> 0] /\ open = {} /\ raw = {} /\ val = [h \in 1 .. 3 |-> << >>] /\ stack = << >> /\ exc = 0 /\ file = NoFile
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
Is1(n, xs) == Len(xs) = Cardinality(SetOf(xs)) /\ SetOf(xs) = n
B(b) == IF b THEN 1 ELSE 0
Only(x) == IF x = {} THEN 0 ELSE CHOOSE y \in x : TRUE
Dead(xs) == Is1(S!Died, xs)
Sets ==
  \/ Is("mk") /\ S!Make(Ev[2], Ev[3], Ev[4]) /\ Dead(Ev[5])
  \/ Is("ins") /\ S!Insert(Ev[2], Ev[3] = 1) /\ Ev[4] = B(S!Equal(slot[Ev[2]]) = {})
     /\ Ev[5] = (IF Ev[4] = 1 THEN slot[Ev[2]] ELSE Only(S!Equal(slot[Ev[2]]))) /\ Dead(Ev[6])
  \/ Is("insx") /\ S!InsertFails(Ev[2], Ev[3] = 1) /\ Dead(Ev[4])
  \/ Is("drop") /\ S!Drop(Ev[2]) /\ Dead(Ev[3])
  \/ Is("erasei") /\ S!Erase(Ev[2]) /\ Dead(Ev[3])
  \/ Is("eraser") /\ S!EraseEqual(Ev[2]) /\ Ev[3] = Cardinality(S!Equal(Ev[2])) /\ Dead(Ev[4])
  \/ Is("take") /\ S!Take(Ev[2], Ev[3]) /\ Ev[4] = Ev[3] /\ Dead(Ev[5])
  \/ Is("hold") /\ S!Hold(Ev[2], Ev[3]) /\ Ev[4] = Ev[3] /\ Dead(Ev[5])
  \/ Is("find") /\ UNCHANGED sv /\ Ev[3] = Only(S!Find(Ev[2]))
  \/ Is("ptr") /\ UNCHANGED sv /\ Ev[3] = (IF slot[Ev[2]] \in in THEN S!Holders(slot[Ev[2]]) ELSE 0)
  \/ Is("look") /\ UNCHANGED sv /\ Is1(in, Ev[2]) /\ Ev[3] = Cardinality(in) /\ Ev[4] = B(in = {}) /\ Ev[5] = 1
  \/ Is("fin") /\ S!Destroy /\ Dead(Ev[2])
  \/ Is("clear") /\ slot' = [s \in 1 .. 3 |-> 0] /\ UNCHANGED <<in, key>> /\ Dead(Ev[2])
\* Contents: of arrays, data and vectors.
Put(h, x) == val' = [val EXCEPT ![h] = x]
Mv(h, g) == val' = [val EXCEPT ![h] = val[g], ![g] = << >>]
Fill(n, v) == [k \in 1 .. n |-> v]
Vals ==
  \/ Is("amk") /\ Put(Ev[2], Fill(Ev[3], 0))
  \/ (Is("amkx") \/ Is("dfailed") \/ (Is("vfailed") /\ Ev[2] = 1)) /\ UNCHANGED val
  \/ Is("amove") /\ Mv(Ev[2], Ev[3])
  \/ Is("aassign") /\ Mv(Ev[2], Ev[3]) /\ Ev[4] = 1
  \/ Is("dmove") /\ Mv(Ev[2], Ev[3]) /\ Ev[4] = 1
  \/ (Is("aset") \/ Is("dput")) /\ Put(Ev[2], [val[Ev[2]] EXCEPT ![Ev[3] + 1] = Ev[4]])
  \/ (Is("asee") \/ Is("dsee")) /\ UNCHANGED val
     /\ LET x == val[Ev[2]] IN Ev[3] = x /\ Ev[4] = Len(x) /\ Ev[5] = B(x = << >>) /\ Ev[6] = 1
  \/ Is("dfill") /\ Put(Ev[2], Fill(Ev[3], Ev[4]))
  \/ Is("dset") /\ Put(Ev[2], Ev[3])
  \/ Is("dcopy") /\ Put(Ev[2], val[Ev[3]]) /\ Ev[4] = 1
  \/ Is("dresize") /\ LET x == val[Ev[2]]  n == Ev[3] IN
        Put(Ev[2], [k \in 1 .. n |-> IF k <= Len(x) THEN x[k] ELSE Ev[4]])
  \/ Is("deq") /\ UNCHANGED val /\ LET e == val[Ev[2]] = val[Ev[3]] IN
        Ev[4] = B(e) /\ Ev[5] = B(~e) /\ (e => Ev[6] = 1) /\ Ev[7] = 1
  \/ Is("vpush") /\ Put(Ev[2], Append(val[Ev[2]], Ev[3]))
  \/ Is("vcopy") /\ Put(Ev[2], val[Ev[3]])
  \/ Is("vmove") /\ Mv(Ev[2], Ev[3])
  \/ Is("vswap") /\ val' = [val EXCEPT ![Ev[2]] = val[Ev[3]], ![Ev[3]] = val[Ev[2]]]
  \/ Is("vsee") /\ UNCHANGED val /\ Ev[3] = val[Ev[2]] /\ Ev[4] = 0 /\ Ev[5] = 1 /\ Ev[6] = 0
  \/ Is("at") /\ Ev[2] = 0 /\ UNCHANGED val
\* Loading: what the first bytes of the file were when read; reading must not
\* end before as many as the file had when opened.
Rest == Len(file.now) - Len(file.read)
FileOps ==
  \/ Is("file") /\ file' = [NoFile EXCEPT !.kind = Ev[2], !.len = Len(Ev[3]), !.now = Ev[3], !.err = Ev[4]] /\ UNCHANGED val
  \/ Is("shrink") /\ file' = [file EXCEPT !.now = SubSeq(file.now, 1, IF Ev[2] < Len(file.now) THEN Ev[2] ELSE Len(file.now))] /\ UNCHANGED val
  \/ /\ Is("rd") /\ UNCHANGED val
     /\ file' = IF Ev[2] < 0 THEN [file EXCEPT !.eio = TRUE]
                ELSE IF Rest <= 0 THEN [file EXCEPT !.short = Len(file.read) < file.len]
                ELSE [file EXCEPT !.read = file.read \o SubSeq(file.now, Len(file.read) + 1,
                                             Len(file.read) + (IF Ev[2] < Rest THEN Ev[2] ELSE Rest))]
  \/ /\ Is("loaded") /\ file' = NoFile
     /\ LET f == file  how == Ev[3]  err == Ev[4]
            expect == IF f.err # 0 THEN "errno" ELSE IF f.kind \in {1, 2} THEN "type"
                      ELSE IF f.eio THEN "errno" ELSE IF f.short THEN "changed" ELSE "ok"
        IN /\ Ev[6] = 0
           /\ IF how = "alloc" THEN Ev[5] = 1 /\ UNCHANGED val
              ELSE /\ (how = expect \/ (Ev[5] = 1 /\ how = "load"))
                   /\ how = "errno" => err = (IF f.err # 0 THEN f.err ELSE 5)
                   /\ IF how = "ok" THEN Len(f.read) >= f.len /\ Put(Ev[2], SubSeq(f.read, 1, f.len)) ELSE UNCHANGED val
           /\ Ev[7] = val'[Ev[2]]
Fds ==
  \/ Is("fmk") /\ H!Make(Ev[2], Ev[3])
  \/ Is("fmove") /\ H!Move(Ev[2], Ev[3])
  \/ Is("fassign") /\ H!Move(Ev[2], Ev[3]) /\ Ev[4] = 1
  \/ Is("fdup") /\ H!Duplicate(Ev[2], Ev[3], Ev[4]) /\ Ev[5] = 1
  \/ Is("fdupx") /\ Ev[2] \notin {0, 4, 11} /\ Ev[3] = Ev[2] /\ UNCHANGED hv
  \/ Is("freset") /\ H!Reset(Ev[2], Ev[3])
  \/ Is("frelease") /\ Ev[3] = own[Ev[2]] /\ H!Release(Ev[2])
  \/ Is("fclose") /\ H!Close(Ev[2])
  \/ Is("fsee") /\ UNCHANGED hv /\ Ev[2] = own /\ Ev[3] = [h \in 1 .. 3 |-> B(own[h] # 0)] /\ Is1(open, Ev[4])
  \/ Is("fzero") /\ Ev[2] = 1 /\ Ev[3] = 0 /\ Ev[4] = 0 /\ UNCHANGED hv
  \/ Is("fraw") /\ H!CloseRaw(Ev[2])
  \/ Is("fend") /\ raw = {} /\ Ev[2] = << >> /\ UNCHANGED hv
\* Guards run once each, the last first, before what called their scope goes on.
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Scopes ==
  \/ Is("guard") /\ exc = 0 /\ stack' = Append(stack, Ev[2]) /\ UNCHANGED exc
  \/ Is("guardx") /\ exc = 0 /\ UNCHANGED <<stack, exc>>
  \/ Is("run") /\ stack # << >> /\ Top = Ev[2] /\ stack' = Pop /\ UNCHANGED exc
  \/ Is("boom") /\ exc = 0 /\ exc' = Ev[2] /\ UNCHANGED stack
  \/ Is("caught") /\ exc = Ev[3] /\ exc' = 0 /\ UNCHANGED stack
  \/ Is("top") /\ exc = 0 /\ stack # << >> /\ Top = Ev[2] /\ UNCHANGED <<stack, exc>>
  \/ Is("left") /\ exc = 0 /\ stack = << >> /\ UNCHANGED <<stack, exc>>
Op ==
  \/ Sets /\ UNCHANGED <<hv, val, stack, exc, file>>
  \/ Vals /\ UNCHANGED <<sv, hv, stack, exc, file>>
  \/ FileOps /\ UNCHANGED <<sv, hv, stack, exc>>
  \/ Fds /\ UNCHANGED <<sv, val, stack, exc, file>>
  \/ Scopes /\ UNCHANGED <<sv, hv, val, file>>
  \/ Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ stack = << >> /\ UNCHANGED <<sv, hv, val, stack, exc, file>>
TNext == Op /\ Adv
TSpec == TInit /\ [][TNext]_vars
=============================================================================
