CONSTANTS
  N = 5
  W = 2
SPECIFICATION Spec
INVARIANTS Sums Steps Products Quotients Shifts Order
CHECK_DEADLOCK FALSE
