SPECIFICATION Spec
INVARIANTS Sound Holds
CHECK_DEADLOCK FALSE
