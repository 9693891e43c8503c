CONSTANTS HALF = 3 DIV = 3 WRAP = 8
SPECIFICATION Spec
INVARIANTS Divides
PROPERTIES NoRunts
CHECK_DEADLOCK FALSE
