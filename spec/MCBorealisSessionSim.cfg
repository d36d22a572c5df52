SPECIFICATION Spec
CONSTANTS
  Files = {"f1", "f2", "f3", "nodir"}
  Data = {"raw", "iq", "oldiq", "rf", "ant", "blank", "phase", "bad", "late", "huge", "newer", "twin", "copy"}
  MaxOps = 8
  Record = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
