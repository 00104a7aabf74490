CONSTANTS
  Threads = 2
  Blocks = 1
  Kinds = {{3}}
  Inits = {2, 256, 70000}
SPECIFICATION Spec
INVARIANTS Exclusion Counting NoneStuck
CHECK_DEADLOCK FALSE
