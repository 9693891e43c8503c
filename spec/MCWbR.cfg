CONSTANTS DEPTH = 2 LANES = 2 RO = 1
SPECIFICATION Spec
INVARIANTS ReadsTruth Prompt NoStray RomFixed
CHECK_DEADLOCK FALSE
