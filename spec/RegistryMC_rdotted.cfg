SPECIFICATION Spec
INVARIANTS Consistent Accounted Alone Once Gen
PROPERTIES NoEffect Grows
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "dotted"
  Table <- DotTable
  Subjects <- DotSubjects
  Forms = {"add","addp"}
  Indexes <- Tried
  MaxOps = 3
  Emit = FALSE
  EmitReg = TRUE
