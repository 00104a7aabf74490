CONSTANTS
  MaxLen = 4
  MaxCap = 5
  DefCap = 1
  NV = 5
  Pair = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Fits
PROPERTIES FrameOK Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
