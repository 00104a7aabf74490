CONSTANTS
  Cap = 3
  NV = 7
  Pair = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS NeverOver
PROPERTIES Isolation AllOrNothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
