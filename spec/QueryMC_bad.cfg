SPECIFICATION Spec
INVARIANTS InOrder RoundTrip OneForm Named
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesQ
  Ops <- OpsQ
  MaxTerms = 1
  Blanks = FALSE
