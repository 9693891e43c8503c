CONSTANTS MODES <- M3
SPECIFICATION Spec
INVARIANTS NoEventLost NoGhost Requested LevelHolds
CHECK_DEADLOCK FALSE
