CONSTANTS
  N = 2
  NO = 3
  Shared = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK NoCycle OnlyAlive Exclusive
PROPERTIES NothingRevived
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
