SPECIFICATION MSpec
CONSTANTS
  MaxSup = 0
  Dump = FALSE
CHECK_DEADLOCK FALSE
