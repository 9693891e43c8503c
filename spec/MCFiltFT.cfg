CONSTANTS Bs <- B3 As <- A0 NS = 1 BW = 4 F = 4 Alpha <- AL Depth = 6
SPECIFICATION Spec
INVARIANTS Diff Exact Delay
PROPERTIES Hold
CHECK_DEADLOCK FALSE
