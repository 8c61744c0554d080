SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
  MaxObj = 2
  Dump = FALSE
  ObjCfgs = {"ext0", "int0", "adj0", "adj7"}
INVARIANTS MachineIsForm FaithfulErr Protocol Sizes Complete TagFirst Transparent Dumped
CHECK_DEADLOCK FALSE
