SPECIFICATION Spec
INVARIANTS SameLanguage NoNeighbours OneForm Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
  Parts <- PartsQ
  MaxParts = 4
  Merge = "all"
