SPECIFICATION Spec
INVARIANTS Correct EarlyOK BoundsOK StackOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens <- TokensU
  MaxTok = 3
  Letters = {97, 1103}
  MaxText = 3
  Commit = "alt"
