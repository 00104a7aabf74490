CONSTANTS
  Cap = 2
  NV = 5
  Pair = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS NeverOver
PROPERTIES Isolation AllOrNothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
