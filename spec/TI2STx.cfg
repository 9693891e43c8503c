CONSTANTS
  SInit <- TxI2SInit
  SStep <- TxI2SStep
SPECIFICATION TSpec
