SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "glob"
  Table <- GlobPool
  Subjects <- GlobPoolSubjects
  Forms = {"add"}
  Indexes <- ByNumber
  MaxOps = 2
  Emit = TRUE
  EmitReg = FALSE
