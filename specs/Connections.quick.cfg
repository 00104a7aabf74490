CONSTANTS
  Conns = 1
  Chunks = {1, 2}
  Sizes = {1, 2, 5}
  MaxHave = 4
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Conserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
