CONSTANTS Cap = 3
 N = 7
 Chunk = 2
SPECIFICATION Spec
INVARIANTS Bounded LevelExact InOrder Content
PROPERTY Delivered
CHECK_DEADLOCK FALSE
