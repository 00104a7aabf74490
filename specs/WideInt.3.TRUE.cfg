CONSTANTS
  B = 3
  Signed = TRUE
  Widths = {1, 2, 4, 8}
  Pats <- Small
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK RoundTrip NotTwice
PROPERTIES OnlyOne
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
