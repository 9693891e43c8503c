CONSTANTS Std = 1 Depth = 1
SPECIFICATION Spec
INVARIANTS NoVerdict Received Bounded
CHECK_DEADLOCK FALSE
