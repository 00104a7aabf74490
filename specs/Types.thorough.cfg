CONSTANTS
  Depth = 2
  MaxList = 5
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
