SPECIFICATION Spec
INVARIANT AsAlone
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
CONSTANTS
  Readers = {r1, r2}
  Globs <- GlobsQ
  Subjects <- SubjectsQ
  MaxCalls = 2
  Scratch = "own"
