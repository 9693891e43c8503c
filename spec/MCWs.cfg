CONSTANTS N = 2
SPECIFICATION Spec
INVARIANTS NoVerdict
CHECK_DEADLOCK TRUE
