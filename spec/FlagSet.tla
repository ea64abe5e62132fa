------------------------------ MODULE FlagSet ------------------------------
(* A set of flags out of All, changed in single steps.                        *)
EXTENDS Naturals, FiniteSets
CONSTANT All
VARIABLE fs
Init == fs = {}
\* Each operation: new value as a function of the old one and the argument.
New(op, old, a) ==
  CASE op = "store" -> a [] op = "set" -> old \cup a [] op = "unset" -> old \ a
    [] op = "toggle" -> (old \ a) \cup (a \ old) [] op = "and" -> old \cap a
Apply(op, a) == fs' = New(op, fs, a)
CasOk(e, a) == fs = e /\ fs' = a
CasFail == UNCHANGED fs
Any(a) == fs \cap a # {}
AllOf(a) == a \subseteq fs
NoneOf(a) == fs \cap a = {}
=============================================================================
