SPECIFICATION Spec
CONSTANTS
  Cap = 3
  NV = 6
  Pair = FALSE
INVARIANTS Bounded
PROPERTIES Fifo Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
