SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesQ
  TagValues <- TagValuesQ
  MaxTerms = 1
  MaxTags = 2
  Bite = "no"
