CONSTANTS Par = "even" Div = 6
SPECIFICATION Spec
INVARIANTS NoVerdict Arrives Right Detect
CHECK_DEADLOCK FALSE
