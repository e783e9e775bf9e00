SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Classes <- ClassesQ
  MaxTok = 2
  Lossy = FALSE
  Emit = TRUE
