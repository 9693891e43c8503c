CONSTANTS
  SInit <- FInit
  SStep <- FStep
SPECIFICATION TSpec
