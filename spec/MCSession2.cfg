SPECIFICATION Spec
CONSTANTS
  Files = {"f1", "nodir"}
  Writers = {"w1", "w2"}
  Readers = {}
  Lists = {"good", "misfit"}
  Fmts = {"A"}
  Groups = {{"good", "misfit"}}
  MaxOps = 1000
  Record = FALSE
INVARIANTS DiskClean WriterHoldsItsObject
PROPERTIES RefusedChangesNothing OutputIsOwnRecords Isolation
CHECK_DEADLOCK FALSE
