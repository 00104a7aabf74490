CONSTANTS
  Extra <- MoreNumbers
SPECIFICATION Spec
INVARIANTS NoLeadingZero OnlyDigits Faithful NoMinusZero Emit
CHECK_DEADLOCK FALSE
