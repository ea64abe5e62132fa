CONSTANTS
  N = 4
  W = 1
SPECIFICATION Spec
INVARIANTS Sums Steps Products Quotients Shifts Order
CHECK_DEADLOCK FALSE
