CONSTANTS
  MaxLen = 3
  MaxCap = 4
  DefCap = 1
  NV = 4
  Pair = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Fits
PROPERTIES FrameOK Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
