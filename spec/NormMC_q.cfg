SPECIFICATION Spec
INVARIANTS SameLanguage OneWay Ends OneForm
CHECK_DEADLOCK FALSE
CONSTANTS
  Classes <- ClassesQ
  MaxTok = 2
  Lossy = FALSE
  Emit = FALSE
