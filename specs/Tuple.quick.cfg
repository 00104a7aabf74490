CONSTANTS
  NV = 6
  Both = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTIES WriteOne Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
