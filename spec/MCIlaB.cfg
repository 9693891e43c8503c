CONSTANTS P = 1 Depth = 2 En = TRUE NMax = 7
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
