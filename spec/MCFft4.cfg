CONSTANTS NP = 4 LG = 2 Vals <- V4 W = 4 CT <- C4 ST <- S4 TS = 0 Full = TRUE
SPECIFICATION Spec
INVARIANTS Radix2 Dc Parseval
CHECK_DEADLOCK FALSE
