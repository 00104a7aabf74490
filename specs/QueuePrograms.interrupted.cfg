CONSTANTS
  Threads = 2
  Ops = 2
  Starts = {200, 10302, 10201, 202, 299}
  Names = {"push", "pop", "init"}
  Arrival = TRUE
SPECIFICATION Spec
INVARIANTS Fifo Bounded Refusal NobodyWaits
CHECK_DEADLOCK FALSE
