CONSTANTS MAX = 3 RESTART = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
