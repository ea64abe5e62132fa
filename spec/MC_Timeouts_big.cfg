CONSTANTS Adders = {1, 2, 3}
 Times = {0, 1, 2, 3}
 MaxTime = 4
 Notify = TRUE
SPECIFICATION Spec
INVARIANTS NotEarly OnTime
PROPERTIES StopEnds AllRun
CHECK_DEADLOCK FALSE
