CONSTANTS
  N = 3
  Widths = {1, 2}
  Pats <- OnePattern
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES OnlyTheField NothingElseWrites ReadsBack AdvancesBySize
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
