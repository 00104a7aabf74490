CONSTANTS
  NC = 2
  NV = 3
  Depth = 2
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTIES Apart OneCell
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
