CONSTANTS
  SInit <- LInit
  SStep <- LStep
SPECIFICATION TSpec
