SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "tags"
  Table <- TagPool
  Subjects <- TagPoolSubjects
  Forms = {"add"}
  Indexes <- ByNumber
  MaxOps = 3
  Emit = TRUE
  EmitReg = FALSE
