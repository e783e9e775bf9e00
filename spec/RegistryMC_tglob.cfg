SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "glob"
  Table <- GlobTable
  Subjects <- GlobSubjects
  Forms = {"add","addp"}
  Indexes <- Tried
  MaxOps = 3
  Emit = TRUE
  EmitReg = TRUE
