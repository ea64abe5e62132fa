CONSTANTS Workers = {1, 2}
 Timed = {2}
 Submitters = {3, 4}
 PerSub = 2
 WithStop = FALSE
 NotifyOne = TRUE
SPECIFICATION Spec
INVARIANTS Listed Owners Once
PROPERTIES AllRun StopEnds Drained
CHECK_DEADLOCK FALSE
