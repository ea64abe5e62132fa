CONSTANTS
  VALUES = {1, 2}
  SLOTS = {1, 2, 3}
  MOVES = FALSE
SPECIFICATION Spec
INVARIANTS Good Honest Clean
CHECK_DEADLOCK FALSE
