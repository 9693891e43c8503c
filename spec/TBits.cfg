CONSTANTS
  SInit <- BInit
  SStep <- BStep
SPECIFICATION TSpec
