CONSTANTS P = 2 Depth = 3 En = TRUE NMax = 9
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
