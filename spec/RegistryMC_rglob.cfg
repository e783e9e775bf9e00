SPECIFICATION Spec
INVARIANTS Consistent Accounted Alone Once Gen
PROPERTIES NoEffect Grows
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "glob"
  Table <- GlobTable
  Subjects <- GlobSubjects
  Forms = {"add","addp"}
  Indexes <- Tried
  MaxOps = 3
  Emit = FALSE
  EmitReg = TRUE
