SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  What = "dotted"
  Pieces <- LevelPieces
  MaxPieces = 5
  Letters = {97, 98}
  MaxText = 4
  Every = 60
