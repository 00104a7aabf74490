CONSTANTS
  Sizes = {1, 2}
  Starts = {0, 2}
  MaxLen = 3
  M = 5
  Ops = {"append", "prepend", "insert", "insertOther", "erase", "pop", "popFront", "reserve", "clean", "new", "copyCtor", "copyAssign", "moveCtor", "moveAssign"}
VIEW View
SPECIFICATION Spec
INVARIANTS TypeOK Canonical
PROPERTY Flattens
CHECK_DEADLOCK FALSE
