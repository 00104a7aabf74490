CONSTANTS
  Threads = 3
  Ops = 1
  Names = {"inc", "dec", "twice", "current"}
  Both = {1}
  Kinds = {0, 1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS NoneLost NobodyWaits
CHECK_DEADLOCK FALSE
