CONSTANTS
  Threads = 3
  Len1 = 2
  Ops = {"wait", "notify"}
  Inits = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Counted OneNotifier OnlyWaitsLast NoLostWakeup
CHECK_DEADLOCK FALSE
