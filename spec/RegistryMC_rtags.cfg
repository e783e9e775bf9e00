SPECIFICATION Spec
INVARIANTS Consistent Accounted Alone Once Gen
PROPERTIES NoEffect Grows
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "tags"
  Table <- TagTable
  Subjects <- TagSubjects
  Forms = {"add","addp"}
  Indexes <- Tried
  MaxOps = 3
  Emit = FALSE
  EmitReg = TRUE
