CONSTANTS
  N = 4
  K = 4
  Kind = "integer"
  Level = "random"
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Laws
PROPERTIES OnlyOne
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
