CONSTANTS
  N = 2
  K = 0
  Given <- AllGiven
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Exact Others
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
