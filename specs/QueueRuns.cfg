CONSTANTS
  Caps <- SmallCaps
  Steps = {1, 2, 4}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES Conserved StaysReady
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
