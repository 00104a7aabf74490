SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2, 3}
  Plain = {2}
  SetOps = {"setCopy", "setMove", "setLvalue", "valCopy", "valMove"}
  NewOps = {"newCopy", "newMove", "newLvalue"}
  CopyOps = {"copyCtor", "copyAssign"}
  CanInit = FALSE
  CanEq = TRUE
  NV = 3
INVARIANTS TypeOK
PROPERTIES Isolation LastWins
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
