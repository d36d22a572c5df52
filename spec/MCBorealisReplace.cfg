SPECIFICATION Spec
CONSTANTS
  Data = {"raw", "twin", "copy"}
  Emit = TRUE
INVARIANTS AllDone LastIsNew EmitCase
CHECK_DEADLOCK FALSE
