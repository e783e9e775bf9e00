SPECIFICATION Spec
INVARIANTS Correct
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesQ
  TagValues <- TagValuesQ
  MaxTerms = 2
  MaxTags = 2
  Bite = "term"
