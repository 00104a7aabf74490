CONSTANTS
  Threads = 1
  Ops = 4
  Names = {"inc", "dec", "twice", "current", "take", "give"}
  Both = {1, 2}
  Kinds = {0, 1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS NoneLost NobodyWaits
CHECK_DEADLOCK FALSE
