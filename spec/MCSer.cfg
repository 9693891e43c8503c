SPECIFICATION Spec
INVARIANTS InRange
CHECK_DEADLOCK FALSE
