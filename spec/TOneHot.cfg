CONSTANTS
  SInit <- HInit
  SStep <- HStep
SPECIFICATION TSpec
