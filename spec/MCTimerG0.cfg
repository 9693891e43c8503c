CONSTANTS MAX = 2 RESTART = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
