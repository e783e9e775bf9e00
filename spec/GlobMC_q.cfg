SPECIFICATION Spec
INVARIANTS Correct EarlyOK BoundsOK StackOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens <- TokensQ
  MaxTok = 3
  Letters = {97, 98}
  MaxText = 3
  Commit = "alt"
