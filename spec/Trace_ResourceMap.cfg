SPECIFICATION TSpec
CONSTRAINT Progress
INVARIANT Inv
POSTCONDITION Report
CHECK_DEADLOCK FALSE
