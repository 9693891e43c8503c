CONSTANTS
  SInit <- UInit
  SStep <- UStep
SPECIFICATION TSpec
