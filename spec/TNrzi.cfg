CONSTANTS
  SInit <- NInit
  SStep <- NStep
SPECIFICATION TSpec
