CONSTANTS Workers = {1, 2, 5}
 Timed = {5}
 Submitters = {3, 4}
 PerSub = 2
 WithStop = TRUE
 NotifyOne = TRUE
SPECIFICATION Spec
INVARIANTS Listed Owners Once
PROPERTIES AllRun StopEnds Drained
CHECK_DEADLOCK FALSE
