CONSTANTS
  MaxLen = 4
  NV = 5
  Pair = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
