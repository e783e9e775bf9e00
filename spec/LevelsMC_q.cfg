SPECIFICATION Spec
INVARIANTS PartsOK CountOK Joined EmptyOK WildOK LiteralOK SkipOK CommonOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {97, 46, 42, 123, 93, 1103}
  MaxText = 6
