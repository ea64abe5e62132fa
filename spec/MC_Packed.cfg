CONSTANTS
  N = 2
  MaxW = 2
  Byte = {0, 1}
SPECIFICATION Spec
INVARIANTS Contiguous Sums Disjoint
CHECK_DEADLOCK FALSE
