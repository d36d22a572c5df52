SPECIFICATION Spec
CONSTANTS
  Files = {"f1", "f2", "f3"}
  Data = {"raw", "iq", "oldiq", "rf", "ant", "blank", "phase", "bad", "late", "huge", "newer"}
  MaxOps = 0
  Record = FALSE
INVARIANTS StepsAgree NoInvention NeverRecords
PROPERTIES RefusedChangesNothing OnlyTheTarget SourceKept OutputsGood
CHECK_DEADLOCK FALSE
VIEW SView
