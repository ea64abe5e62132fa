CONSTANTS
  KEYS = {1, 2, 3}
  OBJS = {1, 2, 3, 4}
  SLOTS = {1, 2}
  LIMIT = 2
SPECIFICATION Spec
INVARIANTS Lru SameList SameAnswers OnePlace
CHECK_DEADLOCK FALSE
