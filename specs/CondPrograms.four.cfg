CONSTANTS
  Threads = 4
  Len1 = 2
  Ops = {"wait", "notify"}
  Inits = {1, 2}
SPECIFICATION Spec
INVARIANTS Counted OneNotifier OnlyWaitsLast NoLostWakeup
CHECK_DEADLOCK FALSE
