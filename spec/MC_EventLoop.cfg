CONSTANTS
  Waiters = {1, 2}
  Stoppers = {11}
  Cap = 1
  Recheck = TRUE
  Rounds = 2
SPECIFICATION Spec
INVARIANTS OneRunner NoUseAfterDrop AtMostOnce Stopped
PROPERTIES StopWorks RunEnds WaitsEnd Served
CHECK_DEADLOCK FALSE
