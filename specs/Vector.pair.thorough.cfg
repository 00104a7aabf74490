CONSTANTS
  MaxLen = 3
  MaxCap = 4
  DefCap = 2
  NV = 6
  Pair = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Fits
PROPERTIES FrameOK Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
