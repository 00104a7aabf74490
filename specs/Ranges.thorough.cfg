CONSTANTS
  N = 4
  D = 3
SPECIFICATION Spec
INVARIANTS Lawful Emit
CHECK_DEADLOCK FALSE
