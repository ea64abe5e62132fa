CONSTANTS H = {1, 2, 3}
 X = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Exact Once
CHECK_DEADLOCK FALSE
