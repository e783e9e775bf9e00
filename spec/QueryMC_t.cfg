SPECIFICATION Spec
INVARIANTS InOrder RoundTrip OneForm Named
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- KeysQ
  Values <- ValuesR
  Ops <- OpsQ
  MaxTerms = 3
  Blanks = TRUE
