CONSTANTS
  Threads = 2
  Ops = 2
  Names = {"inc", "dec", "twice", "back", "current"}
  Both = {1}
  Kinds = {0, 1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS NoneLost NobodyWaits
CHECK_DEADLOCK FALSE
