CONSTANTS
  Threads = 2
  Len1 = 3
  Ops = {"wait", "notify"}
  Inits = {1, 2}
SPECIFICATION Spec
INVARIANTS Counted OneNotifier OnlyWaitsLast NoLostWakeup
CHECK_DEADLOCK FALSE
