CONSTANTS
  NV = 6
  Both = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTIES WriteOne Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
