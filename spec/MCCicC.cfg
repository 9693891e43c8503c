CONSTANTS R = 2 N = 3 BW = 4 Depth = 14
SPECIFICATION Spec
INVARIANT Range
CHECK_DEADLOCK FALSE
