CONSTANTS Pol = 0 Pha = 1 Depth = 4 W = 2
SPECIFICATION Spec
INVARIANT SamplesInOrder
CHECK_DEADLOCK FALSE
