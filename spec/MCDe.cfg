SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Cfgs = {"int0", "int1"}
  Dump = FALSE
INVARIANTS WalkIsMeaning
  WalkIsMeaning2 TagDecides Position AllDelivered ForeignIgnored ForeignDenied NoDuplicates EitherOrder MissingTag MissingContent Default NeedsContent FailureStays NothingUnread Dumped
CHECK_DEADLOCK FALSE
