CONSTANTS
  Sizes = {0, 1, 2, 3, 7}
SPECIFICATION Spec
INVARIANTS Complete Bounded
CHECK_DEADLOCK FALSE
