SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Pieces <- PiecesG
  MaxPieces = 3
  Maxes <- GenMaxes
  Depths = {0, 1}
  MaxCalls = 2
  Restart = TRUE
  Emit = TRUE
