CONSTANTS P = 0 Depth = 2 En = TRUE NMax = 9
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
