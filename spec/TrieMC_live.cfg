SPECIFICATION Spec

PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Pool <- PoolQ
  MaxGlobs = 1
  Letters = {97, 98}
  MaxText = 3
  Roles = TRUE
