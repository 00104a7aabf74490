CONSTANTS
  O = 3
  MaxThreads = 3
SPECIFICATION Spec
VIEW View
INVARIANTS OneOwner Known
PROPERTIES Reclaimed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
