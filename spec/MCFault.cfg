SPECIFICATION FSpec
CONSTANTS
  MaxLen = 6
  MaxObj = 1
  Dump = FALSE
  ObjCfgs = {"ext0", "int0", "adj0"}
INVARIANTS WrittenIsPrefix Whole Torn
PROPERTY NothingAfter
CHECK_DEADLOCK FALSE
