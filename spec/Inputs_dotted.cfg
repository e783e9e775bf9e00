SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  What = "dotted"
  Pieces <- LevelPieces
  MaxPieces = 4
  Letters = {97, 98}
  MaxText = 3
  Every = 40
