CONSTANTS
  SInit <- TxInit
  SStep <- TxStep
SPECIFICATION TSpec
