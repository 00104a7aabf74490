CONSTANTS
  Cap = 4
  NV = 7
  Pair = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS NeverOver
PROPERTIES Isolation AllOrNothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
