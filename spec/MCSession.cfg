SPECIFICATION Spec
CONSTANTS
  Files = {"f1", "nodir"}
  Writers = {"w1"}
  Readers = {"r1"}
  Lists = {"good", "bad2", "void", "fit", "misfit"}
  Fmts = {"A"}
  Groups = {{"good", "bad2"}}
  MaxOps = 1000
  Record = FALSE
INVARIANTS DiskClean WriterHoldsItsObject
PROPERTIES RefusedChangesNothing OutputIsOwnRecords Isolation
CHECK_DEADLOCK FALSE
