CONSTANTS Pol = 0 Pha = 0 Depth = 3 W = 2
SPECIFICATION Spec
INVARIANT SamplesInOrder
CHECK_DEADLOCK FALSE
