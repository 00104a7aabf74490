SPECIFICATION Spec
CONSTANTS
  Cap = 3
  NV = 7
  Pair = TRUE
INVARIANTS Bounded
PROPERTIES Fifo Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
