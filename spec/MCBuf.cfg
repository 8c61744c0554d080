SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Dump = FALSE
INVARIANTS Invisible Typed Dumped
CHECK_DEADLOCK FALSE
