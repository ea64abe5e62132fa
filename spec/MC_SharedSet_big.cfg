CONSTANTS I = {1, 2, 3, 4, 5}
 S = {1, 2, 3}
 K = {1, 2}
SPECIFICATION Spec
INVARIANTS Once Unique
PROPERTIES NoResurrection
CHECK_DEADLOCK FALSE
