CONSTANTS
  SInit <- ResInit
  SStep <- ResStep
SPECIFICATION TSpec
