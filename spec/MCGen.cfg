CONSTANTS NB = 4 BPW = 1 VW = 1 MAXML = 6
SPECIFICATION Spec
VIEW View
INVARIANTS Slice InRange
CHECK_DEADLOCK FALSE
