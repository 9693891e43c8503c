CONSTANTS
  SInit <- IInit
  SStep <- IStep
SPECIFICATION TSpec
