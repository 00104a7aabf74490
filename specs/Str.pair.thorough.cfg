CONSTANTS
  MaxLen = 3
  MaxCap = 4
  NV = 3
  Pair = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Fits
PROPERTIES FrameOK Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
