CONSTANTS Depth = 2 Waits = FALSE NMax = 22
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
