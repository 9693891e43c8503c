CONSTANTS
  SInit <- OInit
  SStep <- OStep
SPECIFICATION TSpec
