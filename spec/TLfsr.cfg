CONSTANTS
  SInit <- FInitS
  SStep <- FStep
SPECIFICATION TSpec
