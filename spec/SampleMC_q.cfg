SPECIFICATION Spec
INVARIANTS InLanguage Kept Begun
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens <- TokensQ
  MaxTok = 3
  Letters = {97, 98}
  MaxRun = 2
  Prior <- SomePrior
  Over = FALSE
