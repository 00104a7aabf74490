CONSTANTS
  Cap = 2
  MaxLen = 4
  NV = 5
  Pair = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Fits
PROPERTIES FrameOK Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
