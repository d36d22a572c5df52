SPECIFICATION Spec
CONSTANTS
  NTemplates = 4
  MaxRecords = 1
  ByteSubst = {0, 1, 2, 3, 4, 8, 9, 10, 16, 19, 20, 127, 128, 255}
  WordSubst <- Words
  OutFile = ""
INVARIANTS RoundTrip AcceptedIsEncoding InBounds
PROPERTIES Progress
CHECK_DEADLOCK FALSE
