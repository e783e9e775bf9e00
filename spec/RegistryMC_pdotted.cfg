SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "dotted"
  Table <- DotPool
  Subjects <- DotPoolSubjects
  Forms = {"add"}
  Indexes <- ByNumber
  MaxOps = 2
  Emit = TRUE
  EmitReg = FALSE
