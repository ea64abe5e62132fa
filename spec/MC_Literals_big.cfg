CONSTANTS W = 32
 Bases = {2, 3, 4}
 MaxLen = 9
SPECIFICATION Spec
INVARIANTS Value Overflow Digits
CHECK_DEADLOCK FALSE
