CONSTANTS DEPTH = 2  HIST = FALSE  MAXN = 0
SPECIFICATION Spec
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
