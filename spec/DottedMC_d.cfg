SPECIFICATION Spec
INVARIANTS Exact OnceEach Reached BoundsOK ReadBack
CHECK_DEADLOCK FALSE
CONSTANTS
  Lvl <- LvlS
  MaxLevels = 3
  MaxGlobs = 1
  Parts <- PartsQ
  MaxParts = 4
  Shadow = FALSE
