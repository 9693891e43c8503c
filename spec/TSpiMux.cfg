CONSTANTS
  SInit <- XInit
  SStep <- XStep
SPECIFICATION TSpec
