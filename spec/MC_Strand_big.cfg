CONSTANTS Workers = {1, 2, 7}
 Submitters = {3, 4}
 PerSub = 3
 Joiners = {5, 6}
 Inside = TRUE
SPECIFICATION Spec
INVARIANTS Slice Awake Joined
PROPERTIES AllRun JoinEnds
CHECK_DEADLOCK FALSE
