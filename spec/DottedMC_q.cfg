SPECIFICATION Spec
INVARIANTS Exact OnceEach Reached BoundsOK ReadBack
CHECK_DEADLOCK FALSE
CONSTANTS
  Lvl <- LvlS
  MaxLevels = 2
  MaxGlobs = 2
  Parts <- PartsQ
  MaxParts = 3
  Shadow = FALSE
