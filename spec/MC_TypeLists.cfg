SPECIFICATION Spec
CONSTANTS Elems = {0, 1, 2}
          MaxLen = 4
INVARIANT Agree
CHECK_DEADLOCK FALSE
