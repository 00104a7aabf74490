CONSTANTS
  Threads = 2
  Blocks = 1
  Kinds = {{1, 2, 3}}
  Inits = {0, 1}
SPECIFICATION Spec
INVARIANTS Exclusion Counting NoneStuck
CHECK_DEADLOCK FALSE
