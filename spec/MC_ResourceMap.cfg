CONSTANTS Threads = {1, 2, 3}
 MaxRes = 4
 Explicit = TRUE
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS OnePerKey UsedLive Quiet
PROPERTIES Refines
CHECK_DEADLOCK FALSE
