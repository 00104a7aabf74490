CONSTANTS
  N = 3
  C = 2
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Balanced
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
