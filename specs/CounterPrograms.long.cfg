CONSTANTS
  Threads = 3
  Ops = 2
  Names = {"inc", "dec", "current"}
  Both = {1}
  Kinds = {0, 2, 5}
SPECIFICATION Spec
INVARIANTS NoneLost NobodyWaits
CHECK_DEADLOCK FALSE
