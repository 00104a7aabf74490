CONSTANTS
  G = 2
  S = 1
  Units <- U3
SPECIFICATION Spec
VIEW View
INVARIANTS Accounted HeldOnlyOnSomething
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
