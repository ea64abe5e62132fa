CONSTANTS H = {1, 2}
 X = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Exact Once
CHECK_DEADLOCK FALSE
