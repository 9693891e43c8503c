CONSTANTS
  SInit <- FftInit
  SStep <- FftStep
SPECIFICATION TSpec
