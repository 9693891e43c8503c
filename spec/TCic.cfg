CONSTANTS
  SInit <- CicInit
  SStep <- CicStep
SPECIFICATION TSpec
