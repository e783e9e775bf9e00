SPECIFICATION Spec
INVARIANTS Same Shape Canonical ReadsBack Found Inside
CHECK_DEADLOCK FALSE
CONSTANTS
  Symbols <- SymbolsT
  MaxAdds = 3
  MaxWidth = 9
  How = "same"
