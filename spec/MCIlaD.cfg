CONSTANTS P = 3 Depth = 3 En = TRUE NMax = 8
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
