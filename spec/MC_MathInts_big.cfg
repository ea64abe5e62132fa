CONSTANTS Base = 4
 D = 3
SPECIFICATION Spec
INVARIANTS Order Conversion Mixed Powers
CHECK_DEADLOCK FALSE
