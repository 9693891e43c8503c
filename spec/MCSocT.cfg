CONSTANTS SIZES = {2, 4, 7} MAXC = 2 WR = 4
SPECIFICATION Spec
INVARIANTS NoOverlap Aligned OneOwner Stored
PROPERTIES Kept
CONSTRAINT Short
CHECK_DEADLOCK FALSE
