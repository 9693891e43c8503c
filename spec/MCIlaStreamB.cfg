CONSTANTS Depth = 3 Waits = TRUE NMax = 22
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
