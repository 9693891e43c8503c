CONSTANTS
  SInit <- RxI2SInit
  SStep <- RxI2SStep
SPECIFICATION TSpec
