CONSTANTS
  Threads = 3
  Ops = 2
  Starts = {10302, 201}
  Names = {"push", "pop"}
  Arrival = FALSE
SPECIFICATION Spec
INVARIANTS Fifo Bounded Refusal NobodyWaits
CHECK_DEADLOCK FALSE
