SPECIFICATION Spec
INVARIANTS Shows MinOK
PROPERTY Stays
CHECK_DEADLOCK FALSE
CONSTANTS
  Numbers = {0, 1, 5}
  Sizes = {0, 1, 2, 4}
  MaxOps = 6
  How = "keep"
  Emit = FALSE
