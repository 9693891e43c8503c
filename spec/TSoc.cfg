CONSTANTS
  SInit <- SocInit
  SStep <- SocStep
SPECIFICATION TSpec
