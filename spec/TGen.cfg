CONSTANTS
  SInit <- GInit
  SStep <- GStep
SPECIFICATION TSpec
