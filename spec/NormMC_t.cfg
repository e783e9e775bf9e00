SPECIFICATION Spec
INVARIANTS SameLanguage OneWay Ends OneForm
CHECK_DEADLOCK FALSE
CONSTANTS
  Classes <- ClassesQ
  MaxTok = 3
  Lossy = FALSE
  Emit = FALSE
