CONSTANTS
  Clients = 2
  Lens = {0, 1, 3}
  Sizes = {1, 2, 4}
  MaxAll = 3
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Order Addressed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
