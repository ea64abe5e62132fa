CONSTANTS
  KEYS = {1, 2, 3}
  VALUES = {1, 2}
  BOXES = {1, 2, 3, 4, 5}
  MAPS = {1, 2}
  HASHES = 2
SPECIFICATION Spec
INVARIANTS SameAnswers NoLeak NotShared Counted
CHECK_DEADLOCK FALSE
