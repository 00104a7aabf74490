CONSTANTS
  N = 1
  K = 3
  Given <- AllGiven
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Exact Others
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
