SPECIFICATION Spec
CONSTANTS
  Cap = 4
  NV = 7
  Pair = FALSE
INVARIANTS Bounded
PROPERTIES Fifo Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
