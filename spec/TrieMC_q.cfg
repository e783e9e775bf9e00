SPECIFICATION Spec
INVARIANTS Exact NoneElse Terminals NoWaste
PROPERTIES Kept ReadOnly
CHECK_DEADLOCK FALSE
CONSTANTS
  Pool <- PoolQ
  MaxGlobs = 2
  Letters = {97, 98}
  MaxText = 4
  Roles = TRUE
