CONSTANTS NP = 8 LG = 3 Vals <- V8 W = 8 CT <- C8 ST <- S8 TS = 8 Full = FALSE
SPECIFICATION Spec
INVARIANTS Radix2 Dc
CHECK_DEADLOCK FALSE
