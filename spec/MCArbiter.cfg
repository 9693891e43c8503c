CONSTANTS N = 3  MAXB = 2  MAXP = 2
SPECIFICATION Spec
VIEW View
INVARIANTS ExactlyOnce NotInterrupted
CHECK_DEADLOCK FALSE
