CONSTANTS Pol = 1 Pha = 1 Msb = 0 Csh = 1 W = 2 Cdc = 0
SPECIFICATION Spec
INVARIANTS Received Complete Transmitted NoSurplus
CHECK_DEADLOCK FALSE
