CONSTANTS W = 16
 Bases = {2, 3, 4, 5}
 MaxLen = 7
SPECIFICATION Spec
INVARIANTS Value Overflow Digits
CHECK_DEADLOCK FALSE
