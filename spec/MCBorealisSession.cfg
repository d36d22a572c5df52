SPECIFICATION Spec
CONSTANTS
  Files = {"f1", "f2", "nodir"}
  Data = {"raw", "oldiq", "rf", "blank", "bad", "late", "huge", "newer"}
  MaxOps = 0
  Record = FALSE
INVARIANTS StepsAgree NoInvention NeverRecords
PROPERTIES RefusedChangesNothing OnlyTheTarget SourceKept OutputsGood
CHECK_DEADLOCK FALSE
VIEW SView
