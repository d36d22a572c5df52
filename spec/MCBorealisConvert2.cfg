SPECIFICATION Spec
CONSTANTS
  MaxRec = 3
  MaxSeq = 2
  MaxBeam = 2
  MaxArr = 3
  MaxSamp = 3
  MaxRange = 3
  MaxLag = 4
  MaxPulse = 2
  Days = 24800
  Emit = TRUE
INVARIANTS Calendar IqOneToOne AcfOneToOne InOrder Blanked EmitShape
CHECK_DEADLOCK FALSE
