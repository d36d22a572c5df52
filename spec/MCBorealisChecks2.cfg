SPECIFICATION Spec
CONSTANTS
  MaxRec = 3
  MaxSteps = 3
  Emit = TRUE
INVARIANTS VerdictAcceptable OkIffGood OkIffUndamaged NothingHidden NothingHiddenArray EmitCase
CHECK_DEADLOCK FALSE
