SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
  Formats = {"iqdat", "rawacf", "fitacf", "snd", "grid", "map"}
  Emitting = FALSE
INVARIANTS ChecksAreTheRule WholeGroupsAllowed NothingForeign NamesCulprits Emit
CHECK_DEADLOCK FALSE
