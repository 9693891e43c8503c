CONSTANTS Pol = 1 Pha = 0 Msb = 0 Csh = 0 W = 2 Cdc = 0
SPECIFICATION Spec
INVARIANTS Received Complete Transmitted NoSurplus
CHECK_DEADLOCK FALSE
