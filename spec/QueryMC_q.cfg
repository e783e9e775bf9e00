SPECIFICATION Spec
INVARIANTS InOrder RoundTrip OneForm Named
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesQ
  Ops <- OpsQ
  MaxTerms = 2
  Blanks = TRUE
