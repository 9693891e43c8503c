CONSTANTS
  SInit <- ZInit
  SStep <- ZStep
SPECIFICATION TSpec
