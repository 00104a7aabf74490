CONSTANTS
  N = 3
  D = 3
SPECIFICATION Spec
INVARIANTS Lawful Emit
CHECK_DEADLOCK FALSE
