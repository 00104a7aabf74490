CONSTANTS
  Threads = 2
  Blocks = 2
  Kinds = {{1}, {2}, {1, 2}}
  Inits = {0}
SPECIFICATION Spec
INVARIANTS Exclusion Counting NoneStuck
CHECK_DEADLOCK FALSE
