CONSTANTS LENS <- L
SPECIFICATION Spec
INVARIANTS Refines
CHECK_DEADLOCK FALSE
