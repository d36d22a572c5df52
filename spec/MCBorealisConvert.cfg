SPECIFICATION Spec
CONSTANTS
  MaxRec = 2
  MaxSeq = 2
  MaxBeam = 3
  MaxArr = 2
  MaxSamp = 2
  MaxRange = 2
  MaxLag = 3
  MaxPulse = 2
  Days = 22000
  Emit = TRUE
INVARIANTS Calendar IqOneToOne AcfOneToOne InOrder Blanked EmitShape
CHECK_DEADLOCK FALSE
