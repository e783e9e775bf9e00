SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Classes <- ClassesQ
  MaxTok = 3
  Lossy = FALSE
  Emit = TRUE
