CONSTANTS
  MaxLen = 2
  NV = 5
  Pair = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
