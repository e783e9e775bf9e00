SPECIFICATION Spec
INVARIANTS Correct SortedOK Behind
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesQ
  TagValues <- TagValuesT
  MaxTerms = 2
  MaxTags = 3
  Bite = "no"
