CONSTANTS P = 3 Depth = 4 En = FALSE NMax = 15
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
