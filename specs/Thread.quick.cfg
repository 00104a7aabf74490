CONSTANTS
  O = 2
  MaxThreads = 2
SPECIFICATION Spec
VIEW View
INVARIANTS OneOwner Known
PROPERTIES Reclaimed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
