CONSTANTS DEPTH = 2  HIST = TRUE  MAXN = 4
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK InOrderExactlyOnce NothingLost
CHECK_DEADLOCK FALSE
