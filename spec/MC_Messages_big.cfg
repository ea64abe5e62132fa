CONSTANTS
  Base = 2
  OPS = 3
  W = 2
SPECIFICATION Spec
INVARIANTS Inside Back Whole Short
CHECK_DEADLOCK FALSE
