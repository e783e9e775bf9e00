SPECIFICATION Spec
INVARIANTS Exact OnceEach NoneElse Ordered Grouped FindOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesQ
  TagKeys <- TagKeysQ
  Ops = {1, 3}
  TermValues <- OnlyX
  MaxTerms = 1
  MaxQueries = 3
  MaxTags = 3
  Hint = "group"
