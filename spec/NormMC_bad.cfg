SPECIFICATION Spec
INVARIANTS SameLanguage OneWay Ends OneForm
CHECK_DEADLOCK FALSE
CONSTANTS
  Classes <- ClassesB
  MaxTok = 2
  Lossy = TRUE
  Emit = FALSE
