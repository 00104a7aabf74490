CONSTANTS
  Conns = 2
  Chunks = {1, 2}
  Sizes = {1, 5}
  MaxHave = 2
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Conserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
