CONSTANTS N = 5
SPECIFICATION Spec
INVARIANTS Split NegIndex Sliced Bytes Ints Revs Xors Comm
CHECK_DEADLOCK FALSE
