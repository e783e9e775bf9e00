SPECIFICATION Spec
INVARIANTS Correct EarlyOK BoundsOK StackOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens <- TokensX
  MaxTok = 5
  Letters = {97, 98}
  MaxText = 5
  Commit = "alt"
