CONSTANTS
  N = 3
  V = 2
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Copies Others
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
