SPECIFICATION Spec
INVARIANT AsAlone
CHECK_DEADLOCK FALSE
CONSTANTS
  Readers = {r1, r2}
  Globs <- GlobsQ
  Subjects <- SubjectsQ
  MaxCalls = 1
  Scratch = "shared"
