CONSTANTS
  MaxN = 2
  NV = 6
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTIES FailureChangesNothing CommonPart OnlyOne
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
