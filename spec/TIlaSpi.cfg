CONSTANTS
  SInit <- SpInit
  SStep <- SpStep
SPECIFICATION TSpec
