CONSTANTS
  MaxN = 3
  NV = 9
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTIES FailureChangesNothing CommonPart OnlyOne
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
