CONSTANTS MAX = 5
SPECIFICATION Spec
INVARIANTS Follows Follows0
PROPERTIES Stable Alternate
CHECK_DEADLOCK FALSE
