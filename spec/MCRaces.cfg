SPECIFICATION RSpec
CONSTANTS
  Tags = {"a", "b"}
  MaxRegs = 0
  Threads = {t1, t2}
  None = None
  Traits = {"X", "Y"}
  MaxUses = 2
  RegChoices <- Choices
INVARIANTS RAlone RWhole
PROPERTIES RSettled RAllFinish
