SPECIFICATION Spec
CONSTANT Max = 6
INVARIANT Laws
CHECK_DEADLOCK FALSE
