CONSTANTS
  SInit <- TmInit
  SStep <- TmStep
SPECIFICATION TSpec
