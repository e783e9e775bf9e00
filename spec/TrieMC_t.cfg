SPECIFICATION Spec
INVARIANTS Exact NoneElse Terminals NoWaste
PROPERTIES Kept ReadOnly
CHECK_DEADLOCK FALSE
CONSTANTS
  Pool <- PoolT
  MaxGlobs = 3
  Letters = {97, 98}
  MaxText = 3
  Roles = TRUE
