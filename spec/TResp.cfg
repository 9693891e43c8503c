CONSTANTS
  SInit <- RespInit
  SStep <- RespStep
SPECIFICATION TSpec
