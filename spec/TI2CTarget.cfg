CONSTANTS
  SInit <- AInit
  SStep <- AStep
SPECIFICATION TSpec
