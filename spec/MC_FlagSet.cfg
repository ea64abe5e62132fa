SPECIFICATION Spec
INVARIANTS OnlyNamed Queries Involution
CHECK_DEADLOCK FALSE
