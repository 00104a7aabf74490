SPECIFICATION Spec
CONSTANTS
  Cap = 2
  NV = 5
  Pair = TRUE
INVARIANTS Bounded
PROPERTIES Fifo Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
