SPECIFICATION Spec
INVARIANTS Exact OnceEach NoneElse Ordered Grouped FindOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesQ
  TagKeys <- TagKeysQ
  Ops = {1, 3}
  TermValues <- ValuesQ
  MaxTerms = 2
  MaxQueries = 2
  MaxTags = 5
  Hint = "tag"
