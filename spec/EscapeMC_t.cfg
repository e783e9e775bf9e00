SPECIFICATION Spec
INVARIANTS QueryInverse PathInverse PlusLost Clean Stays Whole SameAsPlain NotLonger
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- Few
  MaxText = 7
