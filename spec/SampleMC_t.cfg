SPECIFICATION Spec
INVARIANTS InLanguage Kept Begun
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens <- TokensQ
  MaxTok = 4
  Letters = {97, 98}
  MaxRun = 3
  Prior <- SomePrior
  Over = FALSE
