CONSTANTS
  Cap = 3
  MaxLen = 5
  NV = 6
  Pair = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Fits
PROPERTIES FrameOK Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
