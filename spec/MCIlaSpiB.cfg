CONSTANTS Pol = 1 Pha = 1 Depth = 3 W = 2
SPECIFICATION Spec
INVARIANT SamplesInOrder
CHECK_DEADLOCK FALSE
