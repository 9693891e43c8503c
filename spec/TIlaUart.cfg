CONSTANTS
  SInit <- UaInit
  SStep <- UaStep
SPECIFICATION TSpec
