SPECIFICATION Spec
INVARIANTS SameAsGrammar ElementsOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {97, 45, 44, 91, 93, 123, 125, 42}
  MaxText = 5
