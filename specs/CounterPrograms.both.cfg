CONSTANTS
  Threads = 2
  Ops = 2
  Names = {"inc", "dec", "current"}
  Both = {1, 2}
  Kinds = {0, 5}
SPECIFICATION Spec
INVARIANTS NoneLost NobodyWaits
CHECK_DEADLOCK FALSE
