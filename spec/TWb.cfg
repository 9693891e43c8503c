CONSTANTS
  SInit <- WbInit
  SStep <- WbStep
SPECIFICATION TSpec
