CONSTANTS
  SInit <- RegInit
  SStep <- RegStep
SPECIFICATION TSpec
