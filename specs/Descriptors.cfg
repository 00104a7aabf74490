CONSTANTS
  Kind <- Kinds
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Exclusive
PROPERTIES KeptUntilGivenUp
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
