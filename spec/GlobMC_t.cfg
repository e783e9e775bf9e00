SPECIFICATION Spec
INVARIANTS Correct EarlyOK BoundsOK StackOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens <- TokensQ
  MaxTok = 4
  Letters = {97, 98}
  MaxText = 4
  Commit = "alt"
