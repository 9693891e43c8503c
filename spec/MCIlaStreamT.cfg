CONSTANTS Depth = 3 Waits = FALSE NMax = 22
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
