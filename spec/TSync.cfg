CONSTANTS
  SInit <- YInit
  SStep <- YStep
SPECIFICATION TSpec
