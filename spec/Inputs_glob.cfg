SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  What = "glob"
  Pieces <- GlobPieces
  MaxPieces = 3
  Letters = {97, 98, 1103}
  MaxText = 4
  Every = 40
