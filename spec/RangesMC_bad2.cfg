SPECIFICATION Spec
INVARIANTS Same Shape Canonical ReadsBack Found Inside
CHECK_DEADLOCK FALSE
CONSTANTS
  Symbols <- SymbolsQ
  MaxAdds = 2
  MaxWidth = 4
  How = "last"
