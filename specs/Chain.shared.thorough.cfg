CONSTANTS
  N = 3
  NO = 4
  Shared = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK NoCycle OnlyAlive Exclusive
PROPERTIES NothingRevived
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
