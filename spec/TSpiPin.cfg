CONSTANTS
  SInit <- XInit
  SStep <- PStep
SPECIFICATION TSpec
