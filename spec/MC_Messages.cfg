CONSTANTS
  Base = 3
  OPS = 2
  W = 2
SPECIFICATION Spec
INVARIANTS Inside Back Whole Short
CHECK_DEADLOCK FALSE
