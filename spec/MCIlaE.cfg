CONSTANTS P = 3 Depth = 4 En = FALSE NMax = 11
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
