CONSTANTS R = 3 N = 1 BW = 4 Depth = 12
SPECIFICATION Spec
INVARIANT Range
CHECK_DEADLOCK FALSE
