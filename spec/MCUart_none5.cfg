CONSTANTS Par = "none" Div = 5
SPECIFICATION Spec
INVARIANTS NoVerdict Arrives Right Detect
CHECK_DEADLOCK FALSE
