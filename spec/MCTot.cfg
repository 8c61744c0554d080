SPECIFICATION Spec
CONSTANTS
  Len2 = 2
  TotCfgs = {"ext0", "int0", "int1", "int2", "adj0", "adj3"}
  Dump = FALSE
INVARIANTS OnlyOfForm Accepts Dumped
CHECK_DEADLOCK FALSE
