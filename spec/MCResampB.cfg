CONSTANTS M = 2 D = 3 NIN = 7
SPECIFICATION Spec
INVARIANTS Ok Drained
CHECK_DEADLOCK FALSE
