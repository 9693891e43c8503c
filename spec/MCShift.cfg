CONSTANTS DEPTH = 5
SPECIFICATION Spec
INVARIANTS Arrives Maximal
CHECK_DEADLOCK FALSE
