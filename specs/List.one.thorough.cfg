CONSTANTS
  MaxLen = 5
  NV = 6
  Pair = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
