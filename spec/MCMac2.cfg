CONSTANTS BW = 5 Vals <- VS T1 <- TA T2 <- TB Mode = 2 Depth = 6
SPECIFICATION Spec
INVARIANTS Ok Conv
CHECK_DEADLOCK FALSE
