CONSTANTS Counters = {1, 2}
 Both = {3, 4}
 Waiters = {5, 6}
 Timed = {}
SPECIFICATION Spec
INVARIANTS Agree NotEarly
PROPERTY AllReleased
CHECK_DEADLOCK FALSE
