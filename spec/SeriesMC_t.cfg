SPECIFICATION Spec
INVARIANTS SameAsGrammar Around Whole Quotable
PROPERTY Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {39, 34, 32, 44, 97}
  MaxText = 7
