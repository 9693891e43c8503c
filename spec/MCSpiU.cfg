CONSTANTS Pol = 1 Pha = 1 Msb = 1 Csh = 0 W = 3 Cdc = 2
SPECIFICATION Spec
INVARIANTS Received Complete Transmitted NoSurplus
CHECK_DEADLOCK FALSE
