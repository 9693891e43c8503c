CONSTANTS N = 3  MAXW = 2
SPECIFICATION Spec
INVARIANTS ExactlyOnce
CONSTRAINT Constraint
CHECK_DEADLOCK FALSE
