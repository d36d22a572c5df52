SPECIFICATION Spec
CONSTANTS
  MaxRec = 2
  MaxSteps = 2
  Emit = TRUE
INVARIANTS VerdictAcceptable OkIffGood OkIffUndamaged NothingHidden NothingHiddenArray EmitCase
CHECK_DEADLOCK FALSE
