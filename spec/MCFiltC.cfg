CONSTANTS Bs <- B1 As <- A0 NS = 3 BW = 4 F = 4 Alpha <- AL Depth = 5
SPECIFICATION Spec
INVARIANTS Diff Exact Delay
PROPERTIES Hold
CHECK_DEADLOCK FALSE
