CONSTANTS
  SInit <- MInit
  SStep <- MStep
SPECIFICATION TSpec
