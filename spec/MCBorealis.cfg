SPECIFICATION Spec
CONSTANTS
  MaxRec = 2
  MaxSeq = 2
  MaxBeam = 2
  MaxBlank = 2
  Ranges = {1, 2}
  Lags = {2}
  Samps = {1, 2}
  Phases = {"pulse", "sequence"}
  Emit = TRUE
INVARIANTS RoundTrip Places Counts EmitShape
CHECK_DEADLOCK FALSE
