CONSTANTS
  N = 7
  K = 23
  Kind = "circular"
  Level = "random"
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Laws
PROPERTIES OnlyOne
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
