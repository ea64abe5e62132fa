---------------------------- MODULE Trace_FlagSet ----------------------------
EXTENDS TraceBase
VARIABLES fs, pend
All == 0 .. 7
F == INSTANCE FlagSet
vars == <<tid, l, fs, pend>>
None == << >>
Th == 0 .. 4
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
TInit == tid \in 1 .. NT /\ l = 1 /\ F!Init /\ pend = [t \in Th |-> None]
Set(t, v) == pend' = [pend EXCEPT ![t] = v]
\* call: op, argument, second argument (bit lists)
TCall == /\ Is("c") /\ pend[Ev[2]] = None
         /\ Set(Ev[2], <<Ev[3], SetOf(Ev[4]), SetOf(Ev[5])>>) /\ UNCHANGED fs /\ Adv
Done(t, b, s) == Set(t, <<"done", b, s>>)
Bool(b) == IF b THEN 1 ELSE 0
Lin(t) ==
  /\ NextIs({"r"}) /\ pend[t] # None /\ pend[t][1] # "done"
  /\ LET o == pend[t][1]  a == pend[t][2]  e == pend[t][3] IN
     \* updates answer with the set before ("fetch") ...
     \/ o \in {"store", "set", "unset", "toggle", "and"} /\ F!Apply(o, a) /\ Done(t, 0, fs)
     \* ... or with the set after
     \/ o = "get" /\ UNCHANGED fs /\ Done(t, 0, fs)
     \/ o \in {"cas", "casw"} /\ F!CasOk(e, a) /\ Done(t, 1, e)
     \/ o \in {"cas", "casw"} /\ (o = "casw" \/ fs # e) /\ F!CasFail /\ Done(t, 0, fs)
     \/ o = "any" /\ UNCHANGED fs /\ Done(t, Bool(F!Any(a)), {})
     \/ o = "all" /\ UNCHANGED fs /\ Done(t, Bool(F!AllOf(a)), {})
     \/ o = "none" /\ UNCHANGED fs /\ Done(t, Bool(F!NoneOf(a)), {})
     \/ o = "calc&" /\ UNCHANGED fs /\ Done(t, 0, fs \cap a)
     \/ o = "calc|" /\ UNCHANGED fs /\ Done(t, 0, fs \cup a)
     \/ o = "calc^" /\ UNCHANGED fs /\ Done(t, 0, F!New("toggle", fs, a))
  /\ Stay
\* A return that shows no set (its fourth field is -1) is matched on the rest.
TRet == /\ Is("r") /\ pend[Ev[2]] # None /\ pend[Ev[2]][1] = "done"
        /\ pend[Ev[2]][2] = Ev[3] /\ (Ev[4] = 1 => pend[Ev[2]][3] = SetOf(Ev[5]))
        /\ Set(Ev[2], None) /\ UNCHANGED fs /\ Adv
TEnd == Is("end") /\ Ev[2] = 0 /\ Ev[3] = 0 /\ UNCHANGED <<fs, pend>> /\ Adv
TNext == TCall \/ TRet \/ TEnd \/ \E t \in Th : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
