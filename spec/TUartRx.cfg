CONSTANTS
  SInit <- RxInit
  SStep <- RxStep
SPECIFICATION TSpec
