CONSTANTS P = 2 Depth = 3 En = TRUE NMax = 7
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
