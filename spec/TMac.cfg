CONSTANTS
  SInit <- MacInit
  SStep <- MacStep
SPECIFICATION TSpec
