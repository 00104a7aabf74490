CONSTANTS
  Consumes = FALSE
  DoneClears = TRUE
  NV = 4
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES OneHandler Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
