SPECIFICATION Spec
CONSTANTS
  Data = {"raw", "iq", "oldiq", "ant", "rf", "blank", "phase", "bad", "late", "huge", "newer"}
  Emit = TRUE
INVARIANTS Agrees EmitCase
CHECK_DEADLOCK FALSE
