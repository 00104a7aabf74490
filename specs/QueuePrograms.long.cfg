CONSTANTS
  Threads = 2
  Ops = 3
  Starts = {200, 10202, 20301}
  Names = {"push", "pop"}
  Arrival = FALSE
SPECIFICATION Spec
INVARIANTS Fifo Bounded Refusal NobodyWaits
CHECK_DEADLOCK FALSE
