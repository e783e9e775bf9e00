SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "tags"
  Table <- TagTable
  Subjects <- TagSubjects
  Forms = {"add","addp"}
  Indexes <- Tried
  MaxOps = 2
  Emit = TRUE
  EmitReg = TRUE
