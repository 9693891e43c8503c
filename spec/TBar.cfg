CONSTANTS
  SInit <- RInit
  SStep <- RStep
SPECIFICATION TSpec
