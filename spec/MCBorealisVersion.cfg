SPECIFICATION Spec
CONSTANTS
  MaxDots = 3
  MaxDashes = 1
  Emit = TRUE
INVARIANTS KnownByName NeverUnknown EmitCase
PROPERTY Settled
CHECK_DEADLOCK FALSE
