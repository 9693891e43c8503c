CONSTANTS Par = "even" Div = 5
SPECIFICATION Spec
INVARIANTS NoVerdict Arrives Right Detect
CHECK_DEADLOCK FALSE
