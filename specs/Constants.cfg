CONSTANTS
  Numbers <- SomeNumbers
SPECIFICATION Spec
INVARIANTS Lawful
CHECK_DEADLOCK FALSE
