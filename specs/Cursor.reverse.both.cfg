CONSTANTS
  N = 5
  K = 4
  Kind = "reverse"
  Level = "both"
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Laws
PROPERTIES OnlyOne
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
