SPECIFICATION Spec
INVARIANTS Same Shape Canonical ReadsBack Found Inside
CHECK_DEADLOCK FALSE
CONSTANTS
  Symbols <- SymbolsQ
  MaxAdds = 3
  MaxWidth = 3
  How = "same"
