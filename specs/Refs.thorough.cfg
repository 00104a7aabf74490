CONSTANTS
  NC = 3
  NV = 4
  Depth = 3
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTIES Apart OneCell
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
