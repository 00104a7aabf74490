CONSTANTS
  Depth = 1
  MaxList = 3
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
