SPECIFICATION Spec
CONSTANTS
  Differ = 2
  Within <- AllFeatures
  Dump = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
