CONSTANT O = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Links Forest Dying
PROPERTIES Ends
CHECK_DEADLOCK FALSE
