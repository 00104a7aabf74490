CONSTANTS
  Threads = 2
  Len1 = 2
  Ops = {"wait", "notify", "tryWait", "isWait"}
  Inits = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Counted OneNotifier OnlyWaitsLast NoLostWakeup
CHECK_DEADLOCK FALSE
