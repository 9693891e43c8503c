CONSTANTS
  SInit <- IrqInit
  SStep <- IrqStep
SPECIFICATION TSpec
