CONSTANTS M = 3 D = 2 NIN = 7
SPECIFICATION Spec
INVARIANTS Ok Drained
CHECK_DEADLOCK FALSE
