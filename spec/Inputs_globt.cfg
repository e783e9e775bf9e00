SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  What = "glob"
  Pieces <- GlobPieces
  MaxPieces = 4
  Letters = {97, 98, 1103}
  MaxText = 5
  Every = 60
