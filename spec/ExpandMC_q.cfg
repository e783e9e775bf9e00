SPECIFICATION Spec
INVARIANTS Exact InOrder AtRest WithinLimit Meaning
CHECK_DEADLOCK FALSE
CONSTANTS
  Pieces <- PiecesQ
  MaxPieces = 3
  Maxes <- AllMaxes
  Depths = {0, 1, 2}
  MaxCalls = 1
  Restart = TRUE
  Emit = FALSE
