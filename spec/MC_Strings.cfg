CONSTANTS
  MAX = 4
  NMAX = 2
  CH = {1, 2}
SPECIFICATION Spec
INVARIANTS Right_ Pieces
PROPERTIES Ends_
CHECK_DEADLOCK FALSE
