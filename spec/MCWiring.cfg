CONSTANTS N = 3
SPECIFICATION Spec
INVARIANTS BarMonotone BarEnds SyncExact FontDistinct
CHECK_DEADLOCK FALSE
