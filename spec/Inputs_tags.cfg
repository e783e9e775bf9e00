SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  What = "tags"
  Pieces <- TermPieces
  MaxPieces = 3
  Letters = {97, 98}
  MaxText = 3
  Every = 40
