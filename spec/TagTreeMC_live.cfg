SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesQ
  TagKeys <- TagKeysQ
  Ops = {1, 3}
  TermValues <- OnlyX
  MaxTerms = 2
  MaxQueries = 1
  MaxTags = 2
  Hint = "tag"
