SPECIFICATION Spec
INVARIANTS Exact InOrder AtRest WithinLimit Meaning
CHECK_DEADLOCK FALSE
CONSTANTS
  Pieces <- PiecesG
  MaxPieces = 1
  Maxes <- FewMaxes
  Depths = {0, 1}
  MaxCalls = 2
  Restart = FALSE
  Emit = FALSE
