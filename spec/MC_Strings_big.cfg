CONSTANTS
  MAX = 6
  NMAX = 3
  CH = {1, 2}
SPECIFICATION Spec
INVARIANTS Right_ Pieces
PROPERTIES Ends_
CHECK_DEADLOCK FALSE
