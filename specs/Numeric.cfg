CONSTANTS
  Values <- SomeValues
  Bytes <- SomeBytes
SPECIFICATION Spec
INVARIANTS Order Laws Shape Agrees Emit
CHECK_DEADLOCK FALSE
