CONSTANTS
  Cap = 3
  NV = 6
  Pair = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS NeverOver
PROPERTIES Isolation AllOrNothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
