SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "dotted"
  Table <- DotTable
  Subjects <- DotSubjects
  Forms = {"add","addp"}
  Indexes <- Tried
  MaxOps = 2
  Emit = TRUE
  EmitReg = TRUE
