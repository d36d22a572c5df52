SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  Formats = {"iqdat", "rawacf", "fitacf", "snd", "grid", "map"}
  Emitting = TRUE
INVARIANTS ChecksAreTheRule WholeGroupsAllowed NothingForeign NamesCulprits Emit
CHECK_DEADLOCK FALSE
