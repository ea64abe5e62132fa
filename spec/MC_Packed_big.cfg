CONSTANTS
  N = 3
  MaxW = 2
  Byte = {0}
SPECIFICATION Spec
INVARIANTS Contiguous Sums Disjoint
CHECK_DEADLOCK FALSE
