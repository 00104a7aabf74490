CONSTANTS
  Consumes = TRUE
  DoneClears = FALSE
  NV = 4
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES OneHandler Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
