CONSTANTS
  N = 5
  K = 4
  Kind = "forward"
  Level = "ahead"
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Laws
PROPERTIES OnlyOne
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
