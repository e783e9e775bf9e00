SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Pieces <- PiecesG
  MaxPieces = 2
  Maxes <- FewMaxes
  Depths = {0, 1}
  MaxCalls = 1
  Restart = TRUE
  Emit = FALSE
