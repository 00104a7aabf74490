CONSTANTS
  Threads = 3
  Ops = 1
  Starts = {10302, 201, 202}
  Names = {"push", "pop"}
  Arrival = TRUE
SPECIFICATION Spec
INVARIANTS Fifo Bounded Refusal NobodyWaits
CHECK_DEADLOCK FALSE
