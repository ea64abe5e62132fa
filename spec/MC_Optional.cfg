CONSTANTS
  VALUES = {1, 2}
  SLOTS = {1, 2, 3}
  MOVES = TRUE
SPECIFICATION Spec
INVARIANTS Good Honest Clean
CHECK_DEADLOCK FALSE
