SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Numbers = {0, 5}
  Sizes = {1, 3}
  MaxOps = 6
  How = "keep"
  Emit = TRUE
