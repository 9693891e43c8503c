CONSTANTS
  SInit <- DbInit
  SStep <- DbStep
SPECIFICATION TSpec
