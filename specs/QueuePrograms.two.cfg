CONSTANTS
  Threads = 2
  Ops = 2
  Starts = {200, 10301, 202}
  Names = {"push", "pop"}
  Arrival = FALSE
SPECIFICATION Spec
INVARIANTS Fifo Bounded Refusal NobodyWaits
CHECK_DEADLOCK FALSE
