SPECIFICATION Spec
CONSTANTS
  MaxDots = 4
  MaxDashes = 3
  Emit = TRUE
INVARIANTS KnownByName NeverUnknown EmitCase
PROPERTY Settled
CHECK_DEADLOCK FALSE
