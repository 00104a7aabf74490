CONSTANTS
  MaxLen = 2
  MaxCap = 3
  DefCap = 1
  NV = 5
  Pair = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Fits
PROPERTIES FrameOK Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
