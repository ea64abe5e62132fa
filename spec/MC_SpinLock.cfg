CONSTANTS Threads = {1, 2, 3}
 Mod = 4
 Rounds = 4
SPECIFICATION Spec
INVARIANTS Mutex Served
PROPERTY EachEnters
CHECK_DEADLOCK FALSE
