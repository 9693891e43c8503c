CONSTANTS
  SInit <- EdInit
  SStep <- EdStep
SPECIFICATION TSpec
