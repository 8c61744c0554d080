SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxArgs = 4
  Second = FALSE
  Dump = FALSE
INVARIANTS Agree Final Emit
CHECK_DEADLOCK FALSE
