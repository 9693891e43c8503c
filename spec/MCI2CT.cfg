SPECIFICATION Spec
INVARIANTS Sound Bracketed OnlySelectedDrives
CHECK_DEADLOCK FALSE
