CONSTANTS
  N = 4
  NO = 4
  NV = 5
  Shared = FALSE
  Crowds = {}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK ExistsIffOwned Exclusive
PROPERTIES Unchanged
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
