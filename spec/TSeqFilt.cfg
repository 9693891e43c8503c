CONSTANTS
  SInit <- SeqFiltInit
  SStep <- SeqFiltStep
SPECIFICATION TSpec
