CONSTANTS Alpha <- AL Depth = 7
SPECIFICATION Spec
INVARIANTS Plain Strobes
PROPERTIES Once
CHECK_DEADLOCK FALSE
