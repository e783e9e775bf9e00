SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens <- TokensQ
  MaxTok = 2
  Letters = {97, 98}
  MaxRun = 2
  Prior <- SomePrior
  Over = FALSE
