CONSTANTS DEPTH = 3  HIST = TRUE  MAXN = 6
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK InOrderExactlyOnce NothingLost
CHECK_DEADLOCK FALSE
