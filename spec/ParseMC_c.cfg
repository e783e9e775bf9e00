SPECIFICATION Spec
INVARIANTS SameAsGrammar ElementsOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {98, 97, 1103, 45, 91, 93}
  MaxText = 6
