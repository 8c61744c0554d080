SPECIFICATION Spec
CONSTANTS
  Tags = {"a", "b"}
  MaxRegs = 3
  Threads = {t1, t2}
  None = None
INVARIANTS Alone WholeOrNothing
PROPERTIES Settled AllFinish
