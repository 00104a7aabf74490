CONSTANTS
  N = 9
  K = 9
  Kind = "forward"
  Level = "random"
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Laws
PROPERTIES OnlyOne
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
