CONSTANTS
  N = 3
  NO = 2
  NV = 3
  Shared = TRUE
  Crowds = {2, 260, 66000}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK ExistsIffOwned Exclusive
PROPERTIES Unchanged
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
