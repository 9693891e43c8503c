CONSTANTS Par = "mark" Div = 6
SPECIFICATION Spec
INVARIANTS NoVerdict Arrives Right Detect
CHECK_DEADLOCK FALSE
