CONSTANTS
  W = 3
  MAX = 5
SPECIFICATION Spec
INVARIANTS Same Blocked Equals
CHECK_DEADLOCK FALSE
