CONSTANTS Pools = {0, 1}
 Ids <- IdsDef
SPECIFICATION TSpec
INVARIANT Unique
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
