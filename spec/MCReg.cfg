CONSTANTS MAXN = 3 NEV = 2
SPECIFICATION Spec
INVARIANTS Mapped Owed Line
CHECK_DEADLOCK FALSE
