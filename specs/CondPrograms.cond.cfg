CONSTANTS
  Threads = 2
  Len1 = 2
  Ops = {"waitIf", "set", "notify"}
  Inits = {1, 2}
SPECIFICATION Spec
INVARIANTS Counted OneNotifier OnlyWaitsLast NoLostWakeup
CHECK_DEADLOCK FALSE
