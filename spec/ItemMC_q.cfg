SPECIFICATION Spec
INVARIANTS Leftmost NoneLeft Passed LengthOK Anchored
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Items <- ItemsQ
  Letters = {97, 98, 1103}
  MaxText = 5
  Heads = "all"
