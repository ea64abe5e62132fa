CONSTANTS
  Waiters = {1, 2}
  Stoppers = {11, 12}
  Cap = 2
  Recheck = TRUE
  Rounds = 2
SPECIFICATION Spec
INVARIANTS OneRunner NoUseAfterDrop AtMostOnce Stopped
PROPERTIES StopWorks RunEnds WaitsEnd Served
CHECK_DEADLOCK FALSE
