CONSTANTS
  Threads = 3
  Ops = 1
  Starts = {200, 10201, 202}
  Names = {"push", "pop"}
  Arrival = FALSE
SPECIFICATION Spec
INVARIANTS Fifo Bounded Refusal NobodyWaits
CHECK_DEADLOCK FALSE
