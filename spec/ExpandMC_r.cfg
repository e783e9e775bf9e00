SPECIFICATION Spec
INVARIANTS Exact InOrder AtRest WithinLimit Meaning
CHECK_DEADLOCK FALSE
CONSTANTS
  Pieces <- PiecesQ
  MaxPieces = 2
  Maxes <- FewMaxes
  Depths = {0, 1}
  MaxCalls = 2
  Restart = TRUE
  Emit = FALSE
