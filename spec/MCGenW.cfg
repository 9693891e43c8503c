CONSTANTS NB = 7 BPW = 4 VW = 4 MAXML = 9
SPECIFICATION Spec
VIEW View
INVARIANTS Slice InRange
CHECK_DEADLOCK FALSE
