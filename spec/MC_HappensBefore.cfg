SPECIFICATION Spec
INVARIANT NoFalseRace
PROPERTY RaceSeen
CHECK_DEADLOCK FALSE
