SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Lvl <- LvlS
  MaxLevels = 2
  MaxGlobs = 1
  Parts <- PartsQ
  MaxParts = 3
  Shadow = FALSE
