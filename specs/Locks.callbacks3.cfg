CONSTANTS
  Threads = 3
  Blocks = 1
  Kinds = {{1, 2}}
  Inits = {0}
SPECIFICATION Spec
INVARIANTS Exclusion Counting NoneStuck
CHECK_DEADLOCK FALSE
