CONSTANTS
  Counts = {0, 1, 2}
  Ifaces <- AllIfaces
  Fails = {"none", "nofl", "fl", "fl84", "ilcount", "ilcount84", "il", "il84", "init", "init84", "info", "info84", "info400"}
  Ops = {"life", "init", "query", "slots"}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Agree OpenOnly Held
PROPERTIES ForeignKept FailureChangesNothing QueriesNeedReady ListsNeedReady
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
