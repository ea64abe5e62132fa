CONSTANTS N = 3
 Threads = {1, 2}
 Slots = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Unique InRange
PROPERTIES NeverExhaustedEarly ScanEnds
CHECK_DEADLOCK FALSE
