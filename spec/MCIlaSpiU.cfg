CONSTANTS Pol = 1 Pha = 0 Depth = 2 W = 3
SPECIFICATION Spec
INVARIANT SamplesInOrder
CHECK_DEADLOCK FALSE
