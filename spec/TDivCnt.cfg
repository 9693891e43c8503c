CONSTANTS
  SInit <- DInit
  SStep <- DStep
SPECIFICATION TSpec
