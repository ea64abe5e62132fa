CONSTANTS Base = 4
 D = 2
SPECIFICATION Spec
INVARIANTS Order Conversion Mixed Powers
CHECK_DEADLOCK FALSE
