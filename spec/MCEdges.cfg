CONSTANTS LEN = 9 N = 3
SPECIFICATION Spec
INVARIANTS Edges01 Stretch
CHECK_DEADLOCK FALSE
