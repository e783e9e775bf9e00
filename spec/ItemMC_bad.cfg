SPECIFICATION Spec
INVARIANTS Leftmost NoneLeft Passed LengthOK Anchored
CHECK_DEADLOCK FALSE
CONSTANTS
  Items <- ItemsQ
  Letters = {97, 98, 1103}
  MaxText = 3
  Heads = "one"
