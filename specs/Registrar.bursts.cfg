CONSTANTS
  Kinds <- KindsOf
  MaxConns = 2
  Slow = FALSE
  Bursts = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Own Kept Others
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
