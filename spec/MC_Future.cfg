CONSTANTS Waiters = {3, 4, 5}
 WakeAll = TRUE
SPECIFICATION Spec
INVARIANTS Agree NotEarly AtMostOnce
PROPERTIES Released RunsOnce
CHECK_DEADLOCK FALSE
