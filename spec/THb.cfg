CONSTANTS
  SInit <- HbInit
  SStep <- HbStep
SPECIFICATION TSpec
