CONSTANTS
  SInit <- IlaInit
  SStep <- IlaStep
SPECIFICATION TSpec
