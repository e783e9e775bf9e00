SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Symbols <- SymbolsQ
  MaxAdds = 2
  MaxWidth = 4
  How = "same"
