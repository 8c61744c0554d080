SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  ObjCfgs = {"ext0", "int0", "adj0"}
  MaxObj = 1
  Dump = FALSE
  Moves = {0, 1}
  Plain = FALSE
INVARIANTS RoundTrip Kept
CHECK_DEADLOCK FALSE
