CONSTANTS MAX = 4 RESTART = 1
SPECIFICATION Spec
INVARIANTS Exact Bounded
CHECK_DEADLOCK FALSE
