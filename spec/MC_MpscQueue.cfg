CONSTANTS Producers = {1, 2, 3}
 Items = 3
SPECIFICATION Spec
INVARIANTS Agree NoDuplicates PerProducerFifo
PROPERTY AllArrive
CHECK_DEADLOCK FALSE
