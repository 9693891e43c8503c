CONSTANTS
  SInit <- FiltInit
  SStep <- FiltStep
SPECIFICATION TSpec
