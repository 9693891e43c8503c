CONSTANTS
  SInit <- KInit
  SStep <- KStep
SPECIFICATION TSpec
