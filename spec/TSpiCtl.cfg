CONSTANTS
  SInit <- CInit
  SStep <- CStep
SPECIFICATION TSpec
