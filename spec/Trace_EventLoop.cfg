SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
