CONSTANTS Pol = 0 Pha = 0 Msb = 1 Csh = 1 W = 3 Cdc = 2
SPECIFICATION Spec
INVARIANTS Received Complete Transmitted NoSurplus
CHECK_DEADLOCK FALSE
