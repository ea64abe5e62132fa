CONSTANTS Slot = {1, 2}
 Obj = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Alive Parts
PROPERTY Never
CHECK_DEADLOCK FALSE
