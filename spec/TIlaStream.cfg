CONSTANTS
  SInit <- StInit
  SStep <- StStep
SPECIFICATION TSpec
