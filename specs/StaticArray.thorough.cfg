CONSTANTS
  N = 3
  NV = 3
SPECIFICATION Spec
VIEW View
INVARIANTS AlwaysFull
PROPERTIES Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
