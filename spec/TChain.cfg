CONSTANTS
  SInit <- QInit
  SStep <- QStep
SPECIFICATION TSpec
