SPECIFICATION Spec
INVARIANTS Shows MinOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Numbers = {0, 1, 5}
  Sizes = {0, 1, 2, 4}
  MaxOps = 6
  How = "shrink"
  Emit = FALSE
