CONSTANT Bad = TRUE
SPECIFICATION Spec
INVARIANTS AcceptsGood EndsEmpty RejectsBad
CHECK_DEADLOCK FALSE
