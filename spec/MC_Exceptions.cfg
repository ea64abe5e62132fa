CONSTANTS N = 5
 Plain = {p, q}
 Flat = {f}
 Own = {o}
SPECIFICATION Spec
INVARIANTS Together Suffix
CHECK_DEADLOCK FALSE
