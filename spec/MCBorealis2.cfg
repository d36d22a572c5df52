SPECIFICATION Spec
CONSTANTS
  MaxRec = 3
  MaxSeq = 2
  MaxBeam = 2
  MaxBlank = 2
  Ranges = {2}
  Lags = {2}
  Samps = {2}
  Phases = {"pulse", "sequence"}
  Emit = TRUE
INVARIANTS RoundTrip Places Counts EmitShape
CHECK_DEADLOCK FALSE
