SPECIFICATION Spec
INVARIANTS SameLanguage OneWay Ends OneForm
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Classes <- ClassesB
  MaxTok = 3
  Lossy = FALSE
  Emit = FALSE
