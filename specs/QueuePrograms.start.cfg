CONSTANTS
  Threads = 2
  Ops = 2
  Starts = {299}
  Names = {"push", "pop", "init", "ready"}
  Arrival = FALSE
SPECIFICATION Spec
INVARIANTS Fifo Bounded Refusal NobodyWaits
CHECK_DEADLOCK FALSE
