CONSTANTS R = 2 N = 2 BW = 3 Depth = 13
SPECIFICATION Spec
INVARIANT Range
CHECK_DEADLOCK FALSE
