CONSTANTS T = {1, 2}
 N = {1, 2}
 K = {1, 2}
 D = 3
SPECIFICATION Spec
INVARIANTS Nested Found
PROPERTIES Private
CHECK_DEADLOCK FALSE
