CONSTANTS Byte = {1, 2}
 MaxLen = 2
 Hash = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS Function Apart
CHECK_DEADLOCK FALSE
