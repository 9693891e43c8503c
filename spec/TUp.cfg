CONSTANTS
  SInit <- UpInit
  SStep <- UpStep
SPECIFICATION TSpec
