CONSTANTS
  MaxLen = 3
  NV = 6
  Pair = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
