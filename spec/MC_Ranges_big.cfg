CONSTANTS V = {0, 1, 2}
 N = 4
SPECIFICATION Spec
INVARIANTS Within Right Symmetric Reversal
PROPERTY Ends
CHECK_DEADLOCK FALSE
