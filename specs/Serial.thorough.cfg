CONSTANTS
  N = 4
  Widths = {1, 2, 4}
  Pats <- OnePattern
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES OnlyTheField NothingElseWrites ReadsBack AdvancesBySize
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
