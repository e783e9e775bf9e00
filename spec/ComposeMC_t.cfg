SPECIFICATION Spec
INVARIANTS SameLanguage NoNeighbours OneForm Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
  Parts <- PartsT
  MaxParts = 5
  Merge = "all"
