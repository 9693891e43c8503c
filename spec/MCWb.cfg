CONSTANTS DEPTH = 2 LANES = 2 RO = 0
SPECIFICATION Spec
INVARIANTS ReadsTruth Prompt NoStray RomFixed
CHECK_DEADLOCK FALSE
