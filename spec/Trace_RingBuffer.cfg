SPECIFICATION TSpec
INVARIANT Bounded
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
