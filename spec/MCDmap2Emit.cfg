SPECIFICATION Spec
CONSTANTS
  NTemplates = 4
  MaxRecords = 2
  ByteSubst = {0, 1, 2, 3, 4, 8, 9, 10, 16, 19, 20, 127, 128, 255}
  WordSubst <- Words
  OutFile = "x"
INVARIANTS RoundTrip AcceptedIsEncoding InBounds Emit
PROPERTIES Progress
CHECK_DEADLOCK FALSE
