CONSTANTS
  N = 3
  NL = 2
  Dirs <- AllDirs
  Names = {0}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Balanced
PROPERTIES Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
