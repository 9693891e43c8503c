CONSTANTS
  SInit <- WsInit
  SStep <- WsStep
SPECIFICATION TSpec
