SPECIFICATION Spec
CONSTANTS
  MaxSup = 3
  Dump = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
