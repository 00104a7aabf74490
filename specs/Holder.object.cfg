SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2, 3}
  Plain = {2}
  SetOps = {"valCopy", "valMove", "valLvalue"}
  NewOps = {"newCopy", "newMove", "newLvalue"}
  CopyOps = {}
  CanInit = FALSE
  CanEq = FALSE
  NV = 3
INVARIANTS TypeOK
PROPERTIES Isolation LastWins
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
