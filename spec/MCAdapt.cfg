CONSTANTS DEPTH = 3
SPECIFICATION Spec
INVARIANTS Refines
CHECK_DEADLOCK FALSE
