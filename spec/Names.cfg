SPECIFICATION Spec
CONSTANTS
  Depth = 1
  AllKeys = FALSE
  Dump = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
