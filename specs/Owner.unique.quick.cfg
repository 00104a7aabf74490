CONSTANTS
  N = 3
  NO = 3
  NV = 4
  Shared = FALSE
  Crowds = {}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK ExistsIffOwned Exclusive
PROPERTIES Unchanged
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
