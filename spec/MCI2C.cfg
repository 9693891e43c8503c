CONSTANTS W = 2 MaxCmds = 5
SPECIFICATION Spec
INVARIANTS Complete
PROPERTIES Stable Ends
CHECK_DEADLOCK FALSE
