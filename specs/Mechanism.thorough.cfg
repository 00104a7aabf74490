CONSTANTS
  N = 2
  Kinds = {0, 1, 2, 17, 32, 40, 63, 64}
  V = 2
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES AskingIsQuiet OnlyNamed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
