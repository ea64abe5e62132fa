CONSTANTS
  N = 7
  W = 3
SPECIFICATION Spec
INVARIANTS Sums Steps Products Quotients Shifts Order
CHECK_DEADLOCK FALSE
