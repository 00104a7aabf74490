CONSTANTS
  Threads = 3
  Len1 = 2
  Ops = {"waitIf", "set", "notify"}
  Inits = {1}
SPECIFICATION Spec
INVARIANTS Counted OneNotifier OnlyWaitsLast NoLostWakeup
CHECK_DEADLOCK FALSE
