CONSTANTS
  Threads = 2
  Blocks = 2
  Locks = {1, 2, 3}
  Inits = {1}
SPECIFICATION Spec
INVARIANTS Accounted AllReleased
CHECK_DEADLOCK FALSE
